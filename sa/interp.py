"""Abstract interpreter: flow-sensitive, interprocedural (inlining) value-flow analysis.

The abstract value of an expression is a term of terms.py.  Control-flow joins produce gates
(`ite`), loops are summarised once (never iterated over data), unknown inputs are symbols.
No analysed code is imported or executed and no path is handed to a solver.
"""
import ast
import itertools

from . import terms as tm
from .terms import (T, raw, const, enum, top, sym, NONE, TRUE, FALSE, EMPTY, mk_ite, mk_and, mk_or, mk_not, mk_eq,
                    mk_isnone, mk_in, mk_item, mk_len, mk_cat, mk_spread, mk_slice, mk_lin, mk_lt, mk_le, mk_nonempty,
                    mk_strcat, seq_ite, mk_fmap, mk_exists, one, idx, subst, mentions, is_const, is_lit, is_str, is_int,
                    cval, subterms, lin_add, lin_sub, mk_mul)
from .loader import AnalysisError
from .base import (Rec, Func, ClassInfo, Event, State, Abrupt, UNDEF, STR_METHODS, MUTATORS, DICT_METHODS, known_len,
                   mangle, as_load, simp_under)
from .exprs import Exprs
from .lib import Lib


class Interp(Exprs, Lib):
    def __init__(self, loader, cuts=None, package='scrappybara', opts=None):
        self.loader = loader
        self.cuts = cuts or {}
        self.package = package
        self.opts = opts or {}
        self.modules = {}        # name -> frame id
        self.mod_loading = set()
        self.classes = {}        # qual -> ClassInfo
        self.funcs = {}          # fid -> Func
        self.bound_names = {}
        self.frames = itertools.count(1)
        self.frame_birth = {}    # frame -> allocation mark
        self.frame_parent = {}   # frame -> defining frame (closure)
        self.frame_func = {}
        self.frame_module = {}
        tm.IDENT.clear()
        self.locs = itertools.count(1)
        self.lids = itertools.count(1)
        self.events = []
        self.ctx = ()            # loops: (src, lid)
        self.ctxpc = []          # path conditions at loop entries
        self.stack = []          # call stack of Func
        self.phase = 0
        self.quiet = 0
        self.ownver = {}
        self.try_kinds = []      # exceptions caught by the enclosing try statements
        self.notes = []          # unsupported constructs met
        self.stats = {'functions': set(), 'calls': 0, 'statements': 0, 'loops': 0, 'branches': 0}
        self.state = State()
        self.uniq_attrs = None
        self.rec_ctx = []
        self.depth = 0
        self.disc = 0            # > 0 while a loop only discovers what its body modifies
        self.lvlen = {}
        self.origin = {}         # value read from a dict -> (dict reference, key path)
        self.views = {}          # items / values of a dict -> dict reference
        self.dd_factory = {}

    # ------------------------------------------------------------------------------------------
    # modules
    # ------------------------------------------------------------------------------------------

    def load_module(self, name, st):
        if name in self.modules:
            return self.modules[name]
        mod = self.loader.find(name)
        if mod is None:
            return None
        fr = next(self.frames)
        self.modules[name] = fr
        self.frame_parent[fr] = None
        self.frame_module[fr] = mod
        self.frame_func[fr] = None
        st.vars[(fr, '__name__')] = const(name)
        st.vars[(fr, '__file__')] = raw('modfile', name)
        saved = (self.ctx, self.ctxpc, self.stack, self.phase, st.pc, st.facts, self.try_kinds, self.quiet)
        self.ctx, self.ctxpc, self.stack, self.phase, st.pc, st.facts = (), [], [], -1, TRUE, frozenset()
        self.try_kinds = []
        self.quiet += 1
        for stmt in mod.tree.body:
            self.exec_stmt(stmt, st, fr)
            st.pending = []
        (self.ctx, self.ctxpc, self.stack, self.phase, st.pc, st.facts, self.try_kinds, self.quiet) = saved
        return fr

    def module_attr(self, name, attr, st):
        fr = self.load_module(name, st)
        if fr is None:
            if name.split('.')[0] == 'scrappybara':
                raise AnalysisError('module %s not found' % name)
            return raw('lib', name + '.' + attr)
        v = st.vars.get((fr, attr))
        if v is not None:
            return v
        if self.loader.find(name + '.' + attr) is not None:
            return raw('module', name + '.' + attr)
        raise AnalysisError('name %s not found in module %s' % (attr, name))

    def do_import(self, node, st, fr):
        if isinstance(node, ast.Import):
            for al in node.names:
                if al.asname:
                    self.set_var(al.asname, raw('module', al.name), st, fr)
                else:
                    self.set_var(al.name.split('.')[0], raw('module', al.name.split('.')[0]), st, fr)
                if al.name.split('.')[0] == self.package:
                    self.load_module(al.name, st)
            return
        base = node.module or ''
        if node.level:
            mod = self.frame_module[self.mod_frame(fr)]
            pkg = mod.name.split('.') if mod.is_pkg else mod.name.split('.')[:-1]
            pkg = pkg[:len(pkg) - (node.level - 1)]
            base = '.'.join(pkg + ([base] if base else []))
        for al in node.names:
            if al.name == '*':
                mf = self.load_module(base, st)
                for (f2, n2), v in list(st.vars.items()):
                    if f2 == mf and not n2.startswith('_'):
                        self.set_var(n2, v, st, fr)
                continue
            v = self.module_attr(base, al.name, st)
            self.set_var(al.asname or al.name, v, st, fr)

    def mod_frame(self, fr):
        m = self.frame_module[fr]
        return self.modules[m.name]

    # ------------------------------------------------------------------------------------------
    # variables
    # ------------------------------------------------------------------------------------------

    def lookup(self, name, st, fr):
        f = fr
        while f is not None:
            v = st.vars.get((f, name))
            if v is not None and v is not UNDEF:
                return v
            f = self.frame_parent.get(f)
        mf = self.mod_frame(fr)
        v = st.vars.get((mf, name))
        if v is not None:
            return v
        return raw('lib', 'builtins.' + name)

    def set_var(self, name, value, st, fr):
        func = self.frame_func.get(fr)
        target = fr
        if func is not None:
            f = fr
            # comprehension pseudo-frames delegate nothing; nonlocal/global resolution
            if name in func.nonlocals:
                f = self.frame_parent[fr]
                while f is not None and (f, name) not in st.vars:
                    f = self.frame_parent.get(f)
                target = f if f is not None else fr
            elif name in func.globals:
                target = self.mod_frame(fr)
                self.emit('globalwrite', (const(name), value), st, None)
        st.vars[(target, name)] = value

    # ------------------------------------------------------------------------------------------
    # heap
    # ------------------------------------------------------------------------------------------

    def alloc(self, kind, content, st, cls=None, site=None):
        loc = next(self.locs)
        st.heap[loc] = Rec(kind, content, cls, self.phase, site)
        return raw('ref', loc)

    def rec(self, v, st):
        return st.heap.get(v.args[0]) if v.op == 'ref' else None

    def peek(self, v, st):
        """Value term of a container reference (one level)."""
        if v.op == 'ref':
            r = st.heap[v.args[0]]
            if r.kind in ('list', 'deque'):
                return raw('list', r.content)
            if r.kind in ('set', 'dict'):
                return raw(r.kind, r.content)
            return v
        if v.op == 'ite':
            a, b = self.peek(v.args[1], st), self.peek(v.args[2], st)
            if a is v.args[1] and b is v.args[2]:
                return v
            return mk_ite(v.args[0], a, b)
        if v.op == 'mmslot':
            d = self.peek(v.args[0], st)
            for n, k in enumerate(v.args[1]):
                c = self.contains(k, d, st, None)
                x = mk_item(d, k)
                last = n == len(v.args[1]) - 1
                if last:
                    d = mk_ite(c, x, raw(v.args[2], EMPTY)) if x.op not in ('list', 'set') else x
                else:
                    d = x
            return d
        return v

    def once(self, node, v, st):
        """Iterators that are kept: their elements can be had only once."""
        if v.op in ('ref', 'ite') or not (isinstance(node, ast.GeneratorExp) or isinstance(node, ast.Call) and isinstance(
                node.func, ast.Name) and node.func.id in ('iter', 'map', 'filter', 'zip', 'enumerate', 'reversed')):
            if not (v.op == 'ref' and isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'iter'):
                return v
            if st.heap[v.args[0]].kind not in ('list', 'set', 'dict'):
                return v
        return self.alloc('iter', self.iter_seq(v, st, node), st)

    def write_rec(self, v, st, content, node, what):
        loc = v.args[0]
        r = st.heap[loc]
        if r.birth < self.phase and self.phase >= 0:
            self.emit('sharedwrite', (raw('str', const(what)), self.freeze(v, st)), st, node, extra=(r.birth, what,
                                                                                                     r.cls))
        st.heap[loc] = r.with_content(content)

    def freeze(self, v, st, min_loc=0, seen=()):
        """Replace references (allocated at or after min_loc) by value terms, deeply."""
        if not any(x.op == 'ref' for x in subterms(v)):
            return v
        if v.op == 'mmslot':
            v = self.peek(v, st)
        memo = {}

        def go(x, seen):
            if x.op == 'ref':
                loc = x.args[0]
                if loc < min_loc:
                    return x
                if loc in seen:
                    return raw('cyclic', st.heap[loc].kind)
                r = st.heap.get(loc)
                if r is None:
                    return top('dangling reference')
                s2 = seen + (loc,)
                if r.kind == 'obj':
                    attrs = tuple(sorted((k, go(a, s2)) for k, a in r.content.items()))
                    return raw('obj', r.cls, attrs, r.site if r.site is not None else const(loc))
                kind = 'list' if r.kind == 'deque' else r.kind
                if kind == 'iter':
                    return raw('iterator', raw('list', go(r.content, s2)))
                return tm.mk(kind, go(r.content, s2)) if kind != 'list' else raw('list', go(r.content, s2))
            if not x.args:
                return x
            key = (x, seen)
            if key in memo:
                return memo[key]
            args = tuple(tm._map_arg(a, lambda y: go(y, seen)) for a in x.args)
            res = tm.mk(x.op, *args) if args != x.args else x
            memo[key] = res
            return res

        return go(v, tuple(seen))

    # ------------------------------------------------------------------------------------------
    # events
    # ------------------------------------------------------------------------------------------

    def emit(self, kind, data, st, node, extra=None):
        if self.quiet:
            return
        data = tuple(self.freeze(d, st) if isinstance(d, T) else d for d in data)
        pc = mk_and(*(self.ctxpc + [st.pc]))
        pc = self.freeze(pc, st)
        self.events.append(Event(kind, data, pc, self.ctx, self.where(node),
                                 self.stack[-1].qual if self.stack else '<module>', extra))

    def where(self, node):
        if node is None:
            return ''
        f = self.stack[-1] if self.stack else None
        path = f.module.path if f else ''
        return '%s:%d' % (path, getattr(node, 'lineno', 0))

    def note(self, msg, node=None):
        m = '%s %s' % (self.where(node), msg)
        if m not in self.notes and not self.disc:
            self.notes.append(m)
        return top(msg)

    # ------------------------------------------------------------------------------------------
    # conditions
    # ------------------------------------------------------------------------------------------

    def cond(self, v, st):
        v = self.peek(v, st)
        if v.op == 'ite' and any(x.op == 'ref' for x in v.args[1:]):
            c = v.args[0]
            return mk_ite(c, self.cond(v.args[1], st), self.cond(v.args[2], st))
        if v.op == 'ref':
            r = st.heap[v.args[0]]
            if r.kind == 'obj':
                ci = self.classes.get(r.cls)
                if ci is not None:
                    for m in ('__bool__', '__len__'):
                        f = self.class_lookup(ci, m)
                        if f is not None and f.op == 'func':
                            res = self.call(raw('bound', f, v), [], {}, st, None)
                            return tm.truthy(res)
                return TRUE
            if r.kind == 'iter':
                return TRUE
        return self.simp(tm.truthy(v), st)

    def simp(self, c, st):
        if not st.facts or c is TRUE or c is FALSE:
            return c
        return simp_under(c, st.facts)

    def merge(self, c, a, b):
        """State reached from a when c, from b otherwise."""
        if a is b:
            return a
        s = State()
        s.vars = {}
        for k in a.vars.keys() | b.vars.keys():
            x, y = a.vars.get(k, UNDEF), b.vars.get(k, UNDEF)
            if x is y:
                s.vars[k] = x
            elif x is UNDEF:
                s.vars[k] = y
            elif y is UNDEF:
                s.vars[k] = x
            else:
                s.vars[k] = mk_ite(c, x, y)
        for k in a.heap.keys() | b.heap.keys():
            x, y = a.heap.get(k), b.heap.get(k)
            if x is y or y is None:
                s.heap[k] = x
            elif x is None:
                s.heap[k] = y
            elif x.kind == 'obj':
                d = {}
                for n in x.content.keys() | y.content.keys():
                    p, q = x.content.get(n, UNDEF), y.content.get(n, UNDEF)
                    d[n] = p if p is q or q is UNDEF else q if p is UNDEF else mk_ite(c, p, q)
                s.heap[k] = x.with_content(d)
            elif x.content is y.content:
                s.heap[k] = x
            else:
                s.heap[k] = x.with_content(seq_ite(c, x.content, y.content))
        for k in a.over.keys() | b.over.keys():
            x, y = a.over.get(k), b.over.get(k)
            if x is y:
                s.over[k] = x
            else:
                base = None
                if x is None or y is None:
                    base = raw('attr', k[0], k[1])
                s.over[k] = mk_ite(c, x if x is not None else base, y if y is not None else base)
        s.univ = a.univ if len(a.univ) >= len(b.univ) else b.univ
        for k in a.vers.keys() | b.vers.keys():
            x, y = a.vers.get(k, NONE), b.vers.get(k, NONE)
            s.vers[k] = x if x is y else mk_ite(c, x, y)
        s.facts = a.facts & b.facts
        s.pc = a.pc if a.pc is b.pc else mk_or(a.pc, b.pc)
        s.pending = []
        return s

    # ------------------------------------------------------------------------------------------
    # statements
    # exec_* return (abrupts, alive): ordered abrupt outcomes, each conditioned on none of the
    # earlier ones; st is the fall-through state when alive
    # ------------------------------------------------------------------------------------------

    def exec_block(self, body, st, fr):
        abrupts = []
        for stmt in body:
            ab, alive = self.exec_stmt(stmt, st, fr)
            abrupts.extend(ab)
            if not alive:
                return abrupts, False
        return abrupts, True

    def flush(self, st, node):
        """Turn pending raises of the evaluated expressions into abrupt outcomes."""
        if not st.pending:
            return []
        out = []
        for cond, exc, snap in st.pending:
            c = cond
            if c is FALSE:
                continue
            out.append(Abrupt(c, 'raise', exc, snap, self.where(node)))
            st.assume(mk_not(c))
            st.pc = mk_and(st.pc, mk_not(c))
        st.pending = []
        return out

    def exec_stmt(self, node, st, fr):
        self.stats['statements'] += 1
        m = getattr(self, 'st_' + type(node).__name__, None)
        if m is None:
            self.note('unsupported statement %s' % type(node).__name__, node)
            return [], True
        return m(node, st, fr)

    def st_Expr(self, node, st, fr):
        self.ev(node.value, st, fr)
        return self.flush(st, node), True

    def st_Pass(self, node, st, fr):
        return [], True

    def st_Import(self, node, st, fr):
        self.do_import(node, st, fr)
        return [], True

    st_ImportFrom = st_Import

    def st_Global(self, node, st, fr):
        return [], True

    st_Nonlocal = st_Global

    def st_Assign(self, node, st, fr):
        v = self.once(node.value, self.ev(node.value, st, fr), st)
        ab = self.flush(node=node, st=st)
        for t in node.targets:
            self.assign(t, v, st, fr)
            ab += self.flush(st, node)
        return ab, True

    def st_AnnAssign(self, node, st, fr):
        if node.value is not None:
            v = self.ev(node.value, st, fr)
            ab = self.flush(st, node)
            self.assign(node.target, v, st, fr)
            return ab, True
        return [], True

    def st_AugAssign(self, node, st, fr):
        cur = self.ev(as_load(node.target), st, fr)
        v = self.ev(node.value, st, fr)
        ab = self.flush(st, node)
        pv = self.peek(cur, st)
        if cur.op == 'ref' and st.heap[cur.args[0]].kind in ('list', 'set', 'deque', 'dict'):
            r = st.heap[cur.args[0]]
            opn = type(node.op).__name__
            if r.kind in ('list', 'deque') and opn == 'Add':
                self.write_rec(cur, st, mk_cat(r.content, self.iter_seq(v, st, node)), node, '+=')
                return ab, True
            if r.kind == 'set' and opn == 'BitOr':
                self.write_rec(cur, st, mk_cat(r.content, self.iter_seq(v, st, node)), node, '|=')
                return ab, True
        if not (cur.op == 'ref') and pv.op not in ('const', 'lin', 'tuple') and \
                isinstance(node.target, ast.Attribute) and isinstance(node.op, ast.Add) and \
                self.peek(v, st).op in ('list', 'set'):
            # opaque container attribute:  x.attr += [...]
            self.opaque_mutation(cur, 'extend', [v], st, node)
            return ab, True
        res = self.binop(node.op, cur, v, st, node)
        self.assign(node.target, res, st, fr)
        return ab, True

    def st_Return(self, node, st, fr):
        v = self.once(node.value, self.ev(node.value, st, fr), st) if node.value is not None else NONE
        ab = self.flush(st, node)
        ab.append(Abrupt(TRUE, 'return', v, st, self.where(node)))
        return ab, False

    def st_Raise(self, node, st, fr):
        v = self.ev(node.exc, st, fr) if node.exc is not None else raw('reraise')
        ab = self.flush(st, node)
        self.emit('raise', (self.exc_name(v, st),), st, node)
        ab.append(Abrupt(TRUE, 'raise', v, st, self.where(node)))
        return ab, False

    def exc_name(self, v, st):
        if v.op == 'ref':
            r = st.heap[v.args[0]]
            return const(r.cls or '?')
        if v.op == 'obj':
            return const(v.args[0])
        if v.op == 'class':
            return const(v.args[0])
        if v.op == 'exc':
            return v.args[0]
        if v.op == 'lib':
            return const(v.args[0])
        return v

    def st_Break(self, node, st, fr):
        return [Abrupt(TRUE, 'break', NONE, st, self.where(node))], False

    def st_Continue(self, node, st, fr):
        return [Abrupt(TRUE, 'continue', NONE, st, self.where(node))], False

    def st_Assert(self, node, st, fr):
        c = self.cond(self.ev(node.test, st, fr), st)
        ab = self.flush(st, node)
        if c is not TRUE:
            self.emit('assert', (c,), st, node)
            if self.catches('AssertionError'):
                ab.append(Abrupt(mk_not(c), 'raise', raw('exc', const('AssertionError')), st.copy()))
            st.assume(c)
        return ab, True

    def st_Delete(self, node, st, fr):
        for t in node.targets:
            if isinstance(t, ast.Name):
                st.vars[(fr, t.id)] = UNDEF
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st, fr)
                k = self.ev_index(t.slice, st, fr)
                if o.op == 'ref' and st.heap[o.args[0]].kind in ('dict', 'list', 'deque'):
                    r = st.heap[o.args[0]]
                    self.write_rec(o, st, raw('spread', raw('without', self.peek(o, st), k)), node, 'del')
                else:
                    self.opaque_mutation(o, 'del', [k], st, node)
            else:
                self.note('unsupported delete', node)
        return self.flush(st, node), True

    def st_FunctionDef(self, node, st, fr):
        f = self.make_func(node, st, fr)
        for d in reversed(node.decorator_list):
            f = self.decorate(d, f, st, fr)
        self.set_var(node.name, f, st, fr)
        return self.flush(st, node), True

    def decorate(self, d, f, st, fr):
        dv = self.ev(d, st, fr)
        n = dv.args[0] if dv.op in ('lib', 'call') and isinstance(dv.args[0], str) else None
        if n in ('functools.lru_cache', 'functools.cache', 'functools.wraps', 'abc.abstractmethod',
                 'typing.overload', 'builtins.staticmethod'):
            return f
        if dv.op == 'libcall' and dv.args[0] in ('functools.lru_cache', 'functools.wraps', 'functools.cache'):
            return f
        if dv.op == 'func':
            return self.call(dv, [f], {}, st, d)
        return self.note('unsupported decorator', d)

    def make_func(self, node, st, fr, cls=None):
        mod = self.frame_module[fr]
        outer = self.frame_func.get(fr)
        name = getattr(node, 'name', '<lambda>')
        if cls is not None:
            qual = cls.qual + '.' + name
        elif outer is not None:
            qual = outer.qual + '.' + name
        else:
            qual = mod.name + '.' + name
        is_mod = fr == self.modules.get(mod.name)
        f = Func(qual, node, mod, cls, None if is_mod or cls is not None and outer is None else fr)
        if cls is None and outer is not None and outer.cls is not None:
            f.cls = outer.cls
            f.nested_cls = True
        f.defaults = [self.ev(d, st, fr) for d in node.args.defaults]
        f.kw_defaults = [self.ev(d, st, fr) if d is not None else None for d in node.args.kw_defaults]
        fid = qual if is_mod or cls is not None else '%s#%d' % (qual, next(self.lids))
        if cls is not None and any(self.dec_name(d).endswith('.setter') for d in getattr(node, 'decorator_list', [])):
            fid += '.setter'
        self.funcs[fid] = f
        return raw('func', fid)

    def st_ClassDef(self, node, st, fr):
        mod = self.frame_module[fr]
        qual = mod.name + '.' + node.name
        ci = ClassInfo(qual, node.name, mod, node)
        self.classes[qual] = ci
        for b in node.bases:
            bv = self.ev(b, st, fr)
            ci.bases.append(bv)
            if bv.op == 'lib' and bv.args[0].startswith('enum.'):
                ci.is_enum = True
                ci.is_intenum = ci.is_intenum or 'Int' in bv.args[0]
            if bv.op == 'lib' and bv.args[0] in ('typing.NamedTuple',):
                ci.fields = []
            if bv.op == 'class':
                p = self.classes[bv.args[0]]
                ci.is_enum |= p.is_enum
                ci.is_intenum |= p.is_intenum
        is_data = False
        for d in node.decorator_list:
            dv = self.ev(d, st, fr)
            if 'dataclass' in tm.show(dv):
                ci.fields = []
                is_data = True
        cf = next(self.frames)
        self.frame_parent[cf] = fr if self.frame_func.get(fr) is not None else None
        self.frame_module[cf] = mod
        fake = Func.__new__(Func)
        fake.qual, fake.node, fake.module, fake.cls = qual, node, mod, ci
        fake.globals, fake.nonlocals = set(), set()
        fake.frame = None
        fake.is_classbody = True
        self.frame_func[cf] = fake
        for stmt in node.body:
            if isinstance(stmt, ast.FunctionDef):
                decs = [self.dec_name(d) for d in stmt.decorator_list]
                f = self.make_func(stmt, st, fr, ci)
                nm = mangle(stmt.name, ci)
                if 'property' in decs or 'cached_property' in decs:
                    ci.props[nm] = f
                elif any(x.endswith('.setter') for x in decs):
                    ci.setters[nm] = f
                    continue
                else:
                    if 'staticmethod' in decs:
                        ci.statics.add(nm)
                    if 'classmethod' in decs:
                        ci.classmethods.add(nm)
                ci.ns[nm] = f
                st.vars[(cf, nm)] = f
                continue
            if isinstance(stmt, ast.AnnAssign) and ci.fields is not None and isinstance(stmt.target, ast.Name):
                dv = self.ev(stmt.value, st, cf) if stmt.value is not None else None
                ci.fields.append((stmt.target.id, dv))
                continue
            self.exec_stmt(stmt, st, cf)
            for (f2, n2), v in list(st.vars.items()):
                if f2 == cf and n2 not in ci.ns:
                    ci.ns[n2] = v
        for (f2, n2), v in list(st.vars.items()):
            if f2 == cf:
                ci.ns[n2] = v
        if ci.is_enum:
            nxt = 1
            for stmt in node.body:
                if isinstance(stmt, ast.Assign) and isinstance(stmt.targets[0], ast.Name):
                    n = stmt.targets[0].id
                    v = ci.ns.get(n)
                    if v is None or n.startswith('_'):
                        continue
                    if v.op == 'libcall' and v.args[0] == 'enum.auto':
                        val = nxt
                    elif is_const(v):
                        val = cval(v)
                    elif v.op == 'tuple':
                        val = v
                    else:
                        val = v
                    if isinstance(val, int):
                        nxt = val + 1
                    e = enum(qual, n, val)
                    ci.ns[n] = e
                    ci.members.append(e)
        if is_data:
            ci.is_data = True
        self.set_var(node.name, raw('class', qual), st, fr)
        return [], True

    def dec_name(self, d):
        if isinstance(d, ast.Call):
            d = d.func
        if isinstance(d, ast.Name):
            return d.id
        if isinstance(d, ast.Attribute):
            if isinstance(d.value, ast.Name) and d.value.id in ('abc', 'functools'):
                return d.attr
            return self.dec_name(d.value) + '.' + d.attr
        return '?'

    def st_If(self, node, st, fr):
        self.stats['branches'] += 1
        v = self.ev(node.test, st, fr)
        ab = self.flush(st, node)
        c = self.cond(v, st)
        ab += self.flush(st, node)
        if c is TRUE:
            a2, alive = self.exec_block(node.body, st, fr)
            return ab + a2, alive
        if c is FALSE:
            a2, alive = self.exec_block(node.orelse, st, fr)
            return ab + a2, alive
        a2, alive = self.branch(c, st, lambda s: self.exec_block(node.body, s, fr),
                                lambda s: self.exec_block(node.orelse, s, fr))
        return ab + a2, alive

    def branch(self, c, st, fa, fb):
        s1, s2 = st.copy(), st.copy()
        s1.assume(c)
        s1.pc = mk_and(st.pc, c)
        nc = mk_not(c)
        s2.assume(nc)
        s2.pc = mk_and(st.pc, nc)
        a1, l1 = fa(s1)
        a2, l2 = fb(s2)
        ab = []
        if not l1 and not l2 and not a1:
            l1 = True

        def gated(cc, lst):
            return [Abrupt(mk_and(cc, a.cond), a.kind, a.value, a.state, a.where) for a in lst]

        if not l1:
            # the then side is consumed completely first
            g = gated(c, a1)
            if not l2 and a2:
                ab = g + list(a2)
                return ab, False
            ab = g + list(a2)
            st.become(s2)
            return ab, True
        if not l2:
            ab = gated(nc, a2) + list(a1)
            st.become(s1)
            return ab, True
        ab = gated(c, a1) + gated(nc, a2)
        pc0 = st.pc
        st.become(self.merge(c, s1, s2))
        if not ab:
            st.pc = pc0
        return ab, True

    def st_With(self, node, st, fr):
        ab = []
        for item in node.items:
            v = self.ev(item.context_expr, st, fr)
            ab += self.flush(st, node)
            if v.op == 'file':
                self.emit('with_open', (v,), st, item.context_expr)
            if v.op == 'ref' and st.heap[v.args[0]].kind == 'obj':
                ci = self.classes.get(st.heap[v.args[0]].cls)
                m = self.class_lookup(ci, '__enter__') if ci else None
                if m is not None:
                    v = self.call(raw('bound', m, v), [], {}, st, node)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, st, fr)
        a2, alive = self.exec_block(node.body, st, fr)
        return ab + a2, alive

    def st_Try(self, node, st, fr):
        kinds = []
        for h in node.handlers:
            kinds.append(self.handler_names(h, st, fr))
        entry = st.copy()
        self.try_kinds.append([k for ks in kinds for k in ks])
        ab, alive = self.exec_block(node.body, st, fr)
        self.try_kinds.pop()
        if alive and node.orelse:
            a2, alive = self.exec_block(node.orelse, st, fr)
            ab = ab + a2
        out = []
        handled_states = []
        # handle raises in order; a handled raise continues after the try statement
        for a in ab:
            if a.kind != 'raise':
                out.append(a)
                continue
            h = self.match_handler(a.value, node.handlers, kinds, a.state)
            if h is None:
                out.append(a)
                continue
            s = a.state.copy()
            s.assume(a.cond)
            s.pc = mk_and(s.pc, a.cond)
            if h.name:
                s.vars[(fr, h.name)] = a.value if a.value.op != 'exc' else raw('caught', *a.value.args)
            a2, al2 = self.exec_block(h.body, s, fr)
            for x in a2:
                out.append(Abrupt(mk_and(a.cond, x.cond), x.kind, x.value, x.state, x.where))
            if al2:
                # continues: represent as abrupt 'resume'
                out.append(Abrupt(a.cond, 'resume', NONE, s, a.where))
        # a general handler also receives whatever the analysis does not model
        for h, ks in zip(node.handlers, kinds):
            self.emit('handler', (raw('tuple', *[const(k) for k in ks]),), entry, h, extra=h)
        # fold 'resume' outcomes into the fall-through state
        res = []
        resumes = [(i, a) for i, a in enumerate(out) if a.kind == 'resume']
        if resumes:
            acc = st if alive else None
            final = []
            for a in reversed(out):
                if a.kind == 'resume':
                    if acc is None:
                        acc = a.state
                    else:
                        acc = self.merge(a.cond, a.state, acc.copy() if acc is st else acc)
                    for x in final:
                        x.cond = mk_and(mk_not(a.cond), x.cond)
                else:
                    final.append(Abrupt(a.cond, a.kind, a.value, a.state, a.where))
            final.reverse()
            st.become(acc)
            res = final
            alive = True
        else:
            res = out
        if node.finalbody:
            for a in res:
                self.exec_block(node.finalbody, a.state, fr)
            if alive:
                a2, alive = self.exec_block(node.finalbody, st, fr)
                res = res + a2
        return res, alive

    def handler_names(self, h, st, fr):
        if h.type is None:
            return ['BaseException']
        elts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for e in elts:
            v = self.ev(e, st, fr)
            if v.op == 'lib':
                out.append(v.args[0].split('.')[-1])
            elif v.op == 'class':
                out.append(v.args[0])
            else:
                out.append('?')
        return out

    EXC_SUPER = {
        'KeyError': {'KeyError', 'LookupError', 'Exception', 'BaseException'},
        'IndexError': {'IndexError', 'LookupError', 'Exception', 'BaseException'},
        'ValueError': {'ValueError', 'Exception', 'BaseException'},
        'AttributeError': {'AttributeError', 'Exception', 'BaseException'},
        'StopIteration': {'StopIteration', 'Exception', 'BaseException'},
        'TypeError': {'TypeError', 'Exception', 'BaseException'},
        'AssertionError': {'AssertionError', 'Exception', 'BaseException'},
        '$any': {'BaseException'},
    }

    def exc_supers(self, v, st):
        n = self.exc_name(v, st)
        name = cval(n) if is_str(n) else None
        if name is None:
            return {'Exception', 'BaseException'}
        short = name.split('.')[-1]
        if short in self.EXC_SUPER:
            return self.EXC_SUPER[short]
        out = {name, 'Exception', 'BaseException'}
        ci = self.classes.get(name)
        while ci is not None:
            nxt = None
            for b in ci.bases:
                if b.op == 'class':
                    out.add(b.args[0])
                    nxt = self.classes[b.args[0]]
                elif b.op == 'lib':
                    out.add(b.args[0].split('.')[-1])
            ci = nxt
        return out

    def match_handler(self, v, handlers, kinds, st):
        sup = self.exc_supers(v, st)
        for h, ks in zip(handlers, kinds):
            if any(k in sup for k in ks):
                return h
        return None

    def catches(self, name):
        sup = self.EXC_SUPER.get(name, {name})
        return any(k in sup for ks in self.try_kinds for k in ks)

    def may_raise(self, cond, name, st, node):
        """An operation raises `name` when cond; only tracked inside a try that catches it."""
        if cond is FALSE or not self.catches(name):
            return
        cond = self.simp(cond, st)
        if cond is FALSE:
            return
        st.pending.append((cond, raw('exc', const(name)), st.copy()))
        st.assume(mk_not(cond))

    # ------------------------------------------------------------------------------------------
    # loops
    # ------------------------------------------------------------------------------------------

    def st_For(self, node, st, fr):
        it = self.ev(node.iter, st, fr)
        ab = self.flush(st, node)
        seq = self.iter_seq(it, st, node)
        if it.op == 'ref' and st.heap[it.args[0]].kind == 'iter':
            names = {n.id for n in ast.walk(node.iter) if isinstance(n, ast.Name)}
            if any(isinstance(n, (ast.Break, ast.Return)) or isinstance(n, ast.Name) and n.id in names
                   for b in node.body for n in ast.walk(b)):
                st.heap[it.args[0]] = st.heap[it.args[0]].with_content(raw('spread', top('rest of an iterator')))

        def body(s, v):
            self.assign(node.target, v, s, fr)
            a, alive = self.exec_block(node.body, s, fr)
            return self.end_iteration(a, alive, s)

        a2, alive = self.for_seq(seq, st, body)
        ab += a2
        # 'break' leaves the loop
        return self.end_loop(ab, alive, st, node.orelse, fr)

    def end_iteration(self, abr, alive, s):
        """Merge 'continue' outcomes with the fall-through state."""
        conts = [a for a in abr if a.kind == 'continue']
        if not conts:
            return abr, alive
        acc = s if alive else None
        out = []
        for a in reversed(abr):
            if a.kind == 'continue':
                if acc is None:
                    acc = a.state
                else:
                    acc = self.merge(a.cond, a.state, acc.copy() if acc is s else acc)
                for x in out:
                    x.cond = mk_and(mk_not(a.cond), x.cond)
            else:
                out.append(Abrupt(a.cond, a.kind, a.value, a.state, a.where))
        out.reverse()
        s.become(acc)
        return out, True

    def end_loop(self, abr, alive, st, orelse, fr):
        brk = [a for a in abr if a.kind == 'break']
        if alive and orelse:
            a2, alive = self.exec_block(orelse, st, fr)
            abr = abr + a2
        if not brk:
            return abr, alive
        acc = st if alive else None
        out = []
        for a in reversed(abr):
            if a.kind == 'break':
                if acc is None:
                    acc = a.state
                else:
                    acc = self.merge(a.cond, a.state, acc.copy() if acc is st else acc)
                for x in out:
                    x.cond = mk_and(mk_not(a.cond), x.cond)
            else:
                out.append(Abrupt(a.cond, a.kind, a.value, a.state, a.where))
        out.reverse()
        pc0 = st.pc
        st.become(acc)
        if not out:
            st.pc = pc0
        return out, True

    def for_seq(self, seq, st, body):
        """Run body over the elements of seq in order."""
        op = seq.op
        if op == 'one':
            return body(st, seq.args[0])
        if op == 'cat':
            abr = []
            for p in seq.args:
                a, alive = self.for_seq(p, st, body)
                abr += a
                if not alive:
                    return abr, False
            return abr, True
        if op == 'site':
            c = self.simp(seq.args[0], st)
            if c is TRUE:
                return self.for_seq(seq.args[1], st, body)
            if c is FALSE:
                return self.for_seq(seq.args[2], st, body)
            return self.branch(c, st, lambda s: self.for_seq(seq.args[1], s, body),
                               lambda s: self.for_seq(seq.args[2], s, body))
        if op == 'fmap':
            src, lid, inner = seq.args
            return self.loop(src, st, lambda s, i: self.for_seq(subst(inner, {idx(lid): i}), s, body))
        if op == 'spread':
            src = seq.args[0]
            return self.loop(src, st, lambda s, i: body(s, self.viewed(src, i)))
        self.note('cannot iterate %s' % op)
        return self.loop(raw('opaqueseq', seq), st, lambda s, i: body(s, raw('item', raw('opaqueseq', seq), i)))

    def viewed(self, src, i):
        """An element of a sequence; a value of a dictionary is remembered as the content of its slot."""
        v = mk_item(src, i)
        ref = self.views.get(src) if src.op in ('items', 'values') else None
        if ref is not None:
            val = v if src.op == 'values' else v.args[1] if v.op == 'tuple' else None
            if val is not None and val.op in ('item', 'list', 'set', 'dict'):
                self.origin[val] = (ref, (mk_item(raw('keys', src.args[0]), i),))
        return v

    def loop(self, src, st, run):
        """Summarise a loop whose body is run(state, index term)."""
        self.stats['loops'] += 1
        src = tm.canon_src(src)
        n = known_len(src)
        if n is not None and n <= 64:
            abr = []
            for i in range(n):
                a, alive = run(st, const(i))
                abr += a
                if not alive:
                    return abr, False
            return abr, True
        lid = 'L%d' % next(self.lids)
        i = idx(lid)
        if self.disc:
            return self.cheap_loop(st, lid, lambda s: run(s, i))
        # ---- discovery of the cells the body modifies
        self.quiet += 1
        self.disc += 1
        mods = set()
        ind = {}
        for _ in range(8):
            s = st.copy()
            mark = next(self.locs)
            self.plant(mods, s, lid)
            for m, (init, d) in ind.items():
                self.put_cell(s, m, lin_add(init, mk_mul(d, i)))
            s.pc = TRUE
            saved = (self.ctx, self.ctxpc)
            self.ctx, self.ctxpc = self.ctx + ((src, lid),), self.ctxpc + [st.pc]
            before = s.copy()
            a, alive = run(s, i)
            self.ctx, self.ctxpc = saved
            new = set()
            states = [x.state for x in a if x.kind != 'raise'] + ([s] if alive else [])
            for z in states:
                new |= self.changed(before, z, mark)
            new = self.held_lists(new, mods, st, states, mark)
            elem = mk_item(src, i)
            for m in new:
                # attributes the body only writes on the element itself: the elements of a collection of objects are
                # distinct, so reading the element's attribute gives the value before the loop
                if m[0] == 'ver':
                    own = all(own_writes(before.vers.get(m[1], NONE), z.vers.get(m[1], NONE), elem) for z in states)
                    self.ownver[(lid, m[1])] = (elem, st.vers.get(m[1])) if own and (
                        (lid, m[1]) not in self.ownver or self.ownver[(lid, m[1])]) else None
            if new <= mods:
                if not alive or not self.find_inductions(mods, ind, st, s, lid, i):
                    break
            mods |= new
        self.quiet -= 1
        self.disc -= 1
        # ---- summarising pass
        s = st.copy()
        mark = next(self.locs)
        self.plant(mods, s, lid)
        for m, (init, d) in ind.items():
            self.put_cell(s, m, lin_add(init, mk_mul(d, i)))
        base = s.copy()
        s.pc = TRUE
        ev_mark = len(self.events)
        saved = (self.ctx, self.ctxpc)
        self.ctx, self.ctxpc = self.ctx + ((src, lid),), self.ctxpc + [st.pc]
        s.assume(mk_nonempty(src))
        abr, alive = run(s, i)
        self.ctx, self.ctxpc = saved
        if not alive and not abr:
            alive = True
        # stopping conditions
        stops = [x for x in abr if x.kind != 'raise']
        raises = [x for x in abr if x.kind == 'raise']
        if not alive:
            # every iteration leaves the loop: only the first iteration matters
            return self.finish_single(src, st, abr, i, mods, lid, mark, ev_mark)
        rtot = mk_or(*[x.cond for x in abr]) if abr else FALSE
        if rtot is not FALSE and rtot is TRUE:
            return self.finish_single(src, st, abr, i, mods, lid, mark, ev_mark)
        first = raw('firstidx', src, lid, rtot) if rtot is not FALSE else None
        self.check_held(mods, base, s)
        cells = self.solve(mods, base, st, s, src, lid, mark, ind)
        fixed = cells.prefix_subst(i)
        # events
        if not self.quiet:
            for k in range(ev_mark, len(self.events)):
                self.events[k] = self.events[k].map(fixed)
        # normal completion
        out = []
        after = st.copy()
        cells.apply(after, src)
        self.loop_overlay(base, s, after, src, lid, mark, fixed)
        if rtot is not FALSE:
            rt = fixed(rtot)
            ex = mk_exists(src, lid, rt)
            first = raw('firstidx', src, lid, rt)
            tk = raw('take', src, first)
            done = FALSE
            for x in abr:
                c = subst(fixed(x.cond), {i: first})
                xs = x.state.copy()
                vals = cells.at(tk)
                self.map_state(xs, base, lambda t: subst(subst(t, vals), {i: first}))
                val = subst(subst(x.value, vals), {i: first}) if isinstance(x.value, T) else x.value
                xs.pc = st.pc
                xs.facts = st.facts
                cond = mk_and(ex, c) if len(abr) > 1 else ex
                out.append(Abrupt(cond, x.kind, val, xs, x.where))
            after.assume(mk_not(ex))
            after.pc = mk_and(st.pc, mk_not(ex))
        st.become(after)
        return out, True

    def cheap_loop(self, st, lid, run):
        """Inside a discovery pass: run the body once and forget the values of what it modifies."""
        before = st.copy()
        s = st.copy()
        mark = next(self.locs)
        abr, alive = run(s)
        mods = set()
        for z in [x.state for x in abr if x.kind != 'raise'] + ([s] if alive else []):
            mods |= self.changed(before, z, mark)
        st.heap.update({k: r for k, r in s.heap.items() if k >= mark})
        for m in mods:
            if m[0] == 'v':
                st.vars[m[1:]] = raw('disc', lid, m)
            elif m[0] == 'h' and m[1] in st.heap:
                st.heap[m[1]] = st.heap[m[1]].with_content(raw('spread', raw('disc', lid, m)))
            elif m[0] == 'a' and m[1] in st.heap:
                d = dict(st.heap[m[1]].content)
                d[m[2]] = raw('disc', lid, m)
                st.heap[m[1]] = st.heap[m[1]].with_content(d)
            elif m[0] == 'ver':
                st.vers[m[1]] = raw('disc', lid, m)
        out = []
        for x in abr:
            c = raw('discc', lid, x.cond)
            out.append(Abrupt(c, x.kind, x.value, x.state, x.where))
        return out, True

    def finish_single(self, src, st, abr, i, mods, lid, mark, ev_mark):
        """The body always leaves: behaves as a test on the first element."""
        ne = mk_nonempty(src)
        out = []
        init = self.unplant(mods, st, lid)
        z = const(0)
        for x in abr:
            xs = x.state.copy()
            f = lambda t: subst(subst(t, init), {i: z})
            self.map_state(xs, None, f)
            xs.pc = st.pc
            xs.facts = st.facts
            out.append(Abrupt(mk_and(ne, f(x.cond)), x.kind, f(x.value), xs, x.where))
        st.assume(mk_not(ne))
        st.pc = mk_and(st.pc, mk_not(ne))
        if ne is TRUE:
            return out, False
        return out, True

    # cells: ('v', frame, name), ('h', loc), ('a', loc, attr)
    def changed(self, before, after, mark):
        out = set()
        known = self.frame_birth
        for k, v in after.vars.items():
            b = before.vars.get(k)
            if b is not v and known.get(k[0], 0) < mark:
                out.add(('v',) + k)
        for loc, r in after.heap.items():
            if loc >= mark:
                continue
            b = before.heap.get(loc)
            if b is r or b is None:
                continue
            if r.kind == 'obj':
                for n, v in r.content.items():
                    if b.content.get(n) is not v:
                        out.add(('a', loc, n))
            elif b.content is not r.content:
                out.add(('h', loc))
        for k, v in after.vers.items():
            if before.vers.get(k) is not v:
                out.add(('ver', k))
        for k, v in after.over.items():
            if before.over.get(k) is not v:
                out.add(('ver', k[1]))
        return out

    def plant(self, mods, s, lid):
        for m in mods:
            if m[0] == 'v':
                if s.vars.get(m[1:], UNDEF) is not UNDEF:
                    s.vars[m[1:]] = raw('lv', lid, m)
            elif m[0] == 'h':
                r = s.heap.get(m[1])
                if r is not None:
                    s.heap[m[1]] = r.with_content(raw('lvseq', lid, m))
            elif m[0] == 'a':
                r = s.heap.get(m[1])
                if r is not None:
                    d = dict(r.content)
                    if d.get(m[2], UNDEF) is not UNDEF:
                        d[m[2]] = raw('lv', lid, m)
                    s.heap[m[1]] = r.with_content(d)
            elif m[0] == 'l':
                r = s.heap[s.vars[m[1:]].args[0]]
                s.vars[m[1:]] = self.alloc(r.kind, raw('lvseq', lid, m), s)
            elif m[0] == 'ver':
                s.vers[m[1]] = raw('midloop', lid)
                for k in [k for k in s.over if k[1] == m[1]]:
                    del s.over[k]

    def unplant(self, mods, st, lid):
        d = {}
        for m in mods:
            if m[0] == 'v':
                d[raw('lv', lid, m)] = st.vars.get(m[1:], UNDEF)
            elif m[0] == 'h' and m[1] in st.heap:
                d[raw('lvseq', lid, m)] = st.heap[m[1]].content
            elif m[0] == 'l':
                d[raw('lvseq', lid, m)] = self.held(m, st)
            elif m[0] == 'a' and m[1] in st.heap:
                d[raw('lv', lid, m)] = st.heap[m[1]].content.get(m[2], UNDEF)
        return d

    def held(self, m, st):
        """Content of the container the variable of an 'l' cell refers to."""
        def go(v):
            if v.op == 'ite':
                return seq_ite(v.args[0], go(v.args[1]), go(v.args[2]))
            return st.heap[v.args[0]].content
        return go(st.vars[m[1:]])

    def held_lists(self, new, mods, st, states, mark):
        """Variables that refer to one container of their own before the loop and after each iteration (the body fills
        it and starts a new one): the content is the loop-carried value, not the reference."""
        out = set()
        for m in new:
            if m[0] != 'v' or m in mods:
                out.add(m)
                continue
            v = st.vars.get(m[1:], UNDEF)
            if ('l',) + m[1:] in mods:
                continue
            if v.op != 'ref' or st.heap[v.args[0]].kind == 'obj':
                out.add(m)
                continue
            kind = st.heap[v.args[0]].kind

            def own(x, z):
                if x.op == 'ite':
                    return own(x.args[1], z) and own(x.args[2], z)
                return x.op == 'ref' and (x is v or x.args[0] >= mark) and z.heap[x.args[0]].kind == kind

            if all(own(z.vars.get(m[1:], UNDEF), z) for z in states) and not any(
                    v in subterms(x) for k, x in self.cells_of(st) if k != m):
                out.add(('l',) + m[1:])
            else:
                out.add(m)
        # the container such a variable referred to before the loop is no longer touched
        gone = {('h', st.vars[m[1:]].args[0]) for m in out if m[0] == 'l'}
        return out - gone

    def cells_of(self, st):
        for k, v in st.vars.items():
            yield ('v',) + k, v
        for loc, r in st.heap.items():
            if r.kind == 'obj':
                for n, v in r.content.items():
                    yield ('a', loc, n), v
            else:
                yield ('h', loc), r.content
        for k, v in st.over.items():
            yield ('o',) + k, v

    def check_held(self, mods, base, s):
        """A container kept elsewhere while its variable still refers to it would be changed by later iterations."""
        for m in sorted((m for m in mods if m[0] == 'l'), key=str):
            ref = base.vars[m[1:]]
            v = s.vars.get(m[1:], UNDEF)

            def still(x):
                if x is ref:
                    return TRUE
                if x.op == 'ite':
                    return mk_ite(x.args[0], still(x.args[1]), still(x.args[2]))
                return FALSE

            keep = still(v)
            if keep is FALSE:
                continue
            known = s.facts | frozenset(tm.conj_parts(keep))
            for k, x in list(self.cells_of(s)):
                if k == ('v',) + m[1:] or ref not in subterms(x):
                    continue
                if reachable(x, ref, known):
                    bad = {ref: self.note('container shared between iterations')}
                    if k[0] == 'v':
                        s.vars[k[1:]] = subst(x, bad)
                    elif k[0] == 'h':
                        s.heap[k[1]] = s.heap[k[1]].with_content(subst(x, bad))
                    elif k[0] == 'a':
                        d = dict(s.heap[k[1]].content)
                        d[k[2]] = subst(x, bad)
                        s.heap[k[1]] = s.heap[k[1]].with_content(d)
                    else:
                        s.over[k[1:]] = subst(x, bad)

    def solve(self, mods, base, st, s, src, lid, mark, ind=None):
        return Cells(self, mods, base, st, s, src, lid, mark, ind or {})

    def put_cell(self, s, m, v):
        if m[0] == 'v':
            s.vars[m[1:]] = v
        elif m[0] == 'a':
            d = dict(s.heap[m[1]].content)
            d[m[2]] = v
            s.heap[m[1]] = s.heap[m[1]].with_content(d)

    def find_inductions(self, mods, ind, st, s, lid, i):
        """Counters and lists that grow by a constant amount at every iteration."""
        found = False
        for m in mods:
            if m in ind:
                continue
            if m[0] == 'h':
                ph = raw('lvseq', lid, m)
                if ph in self.lvlen or m[1] not in st.heap or m[1] not in s.heap:
                    continue
                parts = tm.cat_parts(s.heap[m[1]].content)
                if parts and parts[0] is ph and st.heap[m[1]].kind in ('list', 'deque'):
                    k = tm.seq_len(mk_cat(*parts[1:]))
                    if is_int(k):
                        self.lvlen[ph] = lin_add(tm.seq_len(st.heap[m[1]].content), mk_mul(k, i))
                        found = True
                continue
            if m[0] == 'v':
                init, new = st.vars.get(m[1:], UNDEF), s.vars.get(m[1:], UNDEF)
            elif m[0] == 'a' and m[1] in st.heap and m[1] in s.heap:
                init, new = st.heap[m[1]].content.get(m[2], UNDEF), s.heap[m[1]].content.get(m[2], UNDEF)
            else:
                continue
            if init is UNDEF or new is UNDEF or not tm.numeric(init):
                continue
            d = lin_sub(new, raw('lv', lid, m))
            if is_int(d):
                ind[m] = (init, d)
                found = True
        return found

    def loop_overlay(self, base, s, after, src, lid, mark, fixed):
        """Attribute writes on opaque objects made by the body."""
        names = set()
        for k, v in s.over.items():
            if base.over.get(k) is v:
                continue
            obj, attr = k
            val = self.freeze(fixed(v), s, mark)
            names.add(attr)
            if mentions(obj, idx(lid)):
                after.univ = after.univ + [(attr, fixed(obj), lid, src, val)]
            else:
                lo = raw('lastof', mk_fmap(src, lid, one(val)), raw('attr', obj, attr))
                after.over[(obj, attr)] = lo
        for u in s.univ:
            if u not in base.univ:
                names.add(u[0])
                after.univ = after.univ + [(u[0], u[1], (u[2], lid) if not isinstance(u[2], tuple) else u[2] + (lid,),
                                            (u[3], src) if not isinstance(u[3], tuple) else u[3] + (src,), u[4])]
        for k, v in s.vers.items():
            if base.vers.get(k) is not v:
                after.vers[k] = raw('ver', after.vers.get(k, NONE), mk_fmap(src, lid, one(fixed(v))))
                names.add(k)
        for k in [k for k in after.over if k[1] in names and k not in s.over]:
            del after.over[k]
        for n in names:
            if n not in s.vers or base.vers.get(n) is s.vers.get(n):
                vals = [(self.freeze(fixed(k[0]), s, mark), self.freeze(fixed(v), s, mark))
                        for k, v in s.over.items() if k[1] == n and base.over.get(k) is not v]
                seq = mk_cat(*[one(raw('tuple', o, v)) for o, v in vals])
                after.vers[n] = raw('ver', st_ver(after, n), mk_fmap(src, lid, seq))

    def map_state(self, s, base, f):
        for k, v in s.vars.items():
            if base is None or base.vars.get(k) is not v or v.op in ('lv',):
                s.vars[k] = f(v)
        for loc, r in list(s.heap.items()):
            b = base.heap.get(loc) if base is not None else None
            if b is r and not (r.kind != 'obj' and r.content.op == 'lvseq') and not (
                    r.kind == 'obj' and any(x.op == 'lv' for x in r.content.values())):
                continue
            if r.kind == 'obj':
                s.heap[loc] = r.with_content({n: f(v) for n, v in r.content.items()})
            else:
                s.heap[loc] = r.with_content(f(r.content))
        s.over = {(f(k[0]), k[1]): f(v) for k, v in s.over.items()}

    def unroll(self, node, st, fr):
        """Runs a while loop whose test is decided each time; False when it is not (state and events as before)."""
        if self.disc or isinstance(node.test, ast.Constant) or node.orelse:
            return False
        s, mark = st.copy(), len(self.events)
        for _ in range(9):
            c = self.cond(self.ev(node.test, s, fr), s)
            if c is FALSE and not s.pending:
                st.become(s)
                return True
            if c is not TRUE or s.pending:
                break
            a, alive = self.exec_block(node.body, s, fr)
            if a or not alive:
                break
        del self.events[mark:]
        return False

    def st_While(self, node, st, fr):
        self.stats['loops'] += 1
        if self.unroll(node, st, fr):
            return [], True
        lid = 'W%d' % next(self.lids)
        if self.disc:
            def once_(s):
                s.assume(self.cond(self.ev(node.test, s, fr), s))
                a, alive = self.exec_block(node.body, s, fr)
                return self.end_iteration(a, alive, s)
            ab, alive = self.cheap_loop(st, lid, once_)
            return [a for a in ab if a.kind != 'break'], True
        self.quiet += 1
        self.disc += 1
        mods = set()

        def once(s):
            c = self.cond(self.ev(node.test, s, fr), s)
            s2 = s
            s2.assume(c)
            s2.pc = c
            a, alive = self.exec_block(node.body, s2, fr)
            a, alive = self.end_iteration(a, alive, s2)
            return c, a, alive

        for _ in range(6):
            s = st.copy()
            mark = next(self.locs)
            self.plant(mods, s, lid)
            before = s.copy()
            c, a, alive = once(s)
            new = set()
            states = [x.state for x in a if x.kind != 'raise'] + ([s] if alive else [])
            for z in states:
                new |= self.changed(before, z, mark)
            new = self.held_lists(new, mods, st, states, mark)
            if new <= mods:
                break
            mods |= new
        self.quiet -= 1
        self.disc -= 1
        s = st.copy()
        mark = next(self.locs)
        self.plant(mods, s, lid)
        base = s.copy()
        ev_mark = len(self.events)
        saved = (self.ctx, self.ctxpc)
        self.ctx, self.ctxpc = self.ctx + ((raw('whilectx', lid), lid),), self.ctxpc + [st.pc]
        c, abr, alive = once(s)
        self.ctx, self.ctxpc = saved
        brks = [x for x in abr if x.kind == 'break']
        others = [x for x in abr if x.kind not in ('break',)]
        # cells
        cells = []
        self.check_held(mods, base, s)
        init = self.unplant(mods, st, lid)
        bcond = mk_or(*[x.cond for x in brks]) if brks else FALSE
        for m in sorted(mods, key=str):
            if m[0] == 'v':
                ph = raw('lv', lid, m)
                new = s.vars.get(m[1:], UNDEF)
            elif m[0] == 'h':
                if m[1] not in s.heap:
                    continue
                ph = raw('lvseq', lid, m)
                new = raw('list', s.heap[m[1]].content)
            elif m[0] == 'l':
                ph = raw('lvseq', lid, m)
                new = raw('list', self.held(m, s))
            elif m[0] == 'a':
                ph = raw('lv', lid, m)
                new = s.heap[m[1]].content.get(m[2], UNDEF)
            else:
                continue
            ini = init.get(ph, UNDEF)
            if m[0] in 'hl':
                ini = raw('list', ini)
            new = self.freeze(new, s, mark)
            cells.append([m, ph, self.freeze(ini, st, mark), new])
        used = set()
        for x in subterms(c):
            used.add(x)
        for m, ph, ini, new in cells:
            for x in subterms(new):
                used.add(x)
        for x in others + brks:
            used |= subterms(x.cond)
        live = [k for k in cells if k[1] in used or k[0][0] != 'v' or k[2] is not UNDEF]
        # canonical order: by initial value and by the step with anonymous placeholders
        anon = {k[1]: (raw('anon') if k[1].op == 'lv' else raw('spread', raw('anon'))) for k in cells}

        def key(k):
            return (tm.sort_key(subst(k[3], anon)), tm.sort_key(subst(k[2], anon)))

        live.sort(key=key)
        ren = {}
        for n, k in enumerate(live):
            ren[k[1]] = raw('wv', lid, n) if k[1].op == 'lv' else raw('spread', raw('wv', lid, n))
        dead = [k for k in cells if k not in live]
        for k in dead:
            ren[k[1]] = UNDEF
        brk_term = subst(bcond, ren)
        w = raw('while', lid, subst(c, ren), raw('tuple', *[subst(k[3], ren) for k in live]),
                raw('tuple', *[k[2] for k in live]), brk_term)
        sub = dict(ren)
        if not self.quiet:
            here = raw('whilectx', lid)
            f = lambda t: raw('witer', w) if t is here else subst(t, sub)
            for n in range(ev_mark, len(self.events)):
                self.events[n] = self.events[n].map(f)
            self.emit('while', (w,), st, node)
        for n, k in enumerate(live):
            m = k[0]
            v = raw('wout', w, n)
            if m[0] == 'v':
                st.vars[m[1:]] = v
            elif m[0] == 'h':
                st.heap[m[1]] = st.heap[m[1]].with_content(mk_spread(v))
            elif m[0] == 'l':
                st.vars[m[1:]] = self.alloc(st.heap[st.vars[m[1:]].args[0]].kind, mk_spread(v), st)
            elif m[0] == 'a':
                d = dict(st.heap[m[1]].content)
                d[m[2]] = v
                st.heap[m[1]] = st.heap[m[1]].with_content(d)
        for k in dead:
            if k[0][0] == 'v':
                st.vars[k[0][1:]] = top('value left by a while loop')
        self.loop_overlay(st.copy(), s, st, raw('whilectx', lid), lid, mark, lambda t: subst(t, sub))
        out = []
        for x in others:
            if x.kind == 'raise':
                out.append(Abrupt(raw('duringwhile', w, subst(x.cond, ren)), 'raise', x.value, st.copy(), x.where))
            else:
                self.note('return inside while', node)
                out.append(Abrupt(raw('duringwhile', w, subst(x.cond, ren)), x.kind,
                                  top('return inside a while loop'), st.copy(), x.where))
        if node.orelse:
            self.note('while-else', node)
        return out, True


class Cells(object):
    """Closed forms of the cells a loop modifies."""

    def __init__(self, it, mods, base, st, s, src, lid, mark, ind):
        self.it = it
        self.src = src
        self.lid = lid
        self.i = idx(lid)
        self.form = {}       # cell -> (kind, payload, init, placeholder)
        final = {}
        for m in mods:
            if m[0] == 'v':
                ph = raw('lv', lid, m)
                init = st.vars.get(m[1:], UNDEF)
                new = s.vars.get(m[1:], UNDEF)
            elif m[0] == 'h':
                if m[1] not in st.heap:
                    continue
                ph = raw('lvseq', lid, m)
                init = st.heap[m[1]].content
                new = s.heap[m[1]].content
            elif m[0] == 'l':
                ph = raw('lvseq', lid, m)
                init = it.held(m, st)
                new = it.held(m, s)
            elif m[0] == 'a':
                if m[1] not in st.heap:
                    continue
                ph = raw('lv', lid, m)
                init = st.heap[m[1]].content.get(m[2], UNDEF)
                new = s.heap[m[1]].content.get(m[2], UNDEF)
            else:
                continue
            new = it.freeze(new, s, mark)
            final[m] = (ph, init, new)
        phs = {v[0]: m for m, v in final.items()}
        # classify
        for m, (ph, init, new) in final.items():
            if m in ind:
                d = lin_sub(new, lin_add(init, mk_mul(ind[m][1], self.i)))
                self.form[m] = ('sum', d, init, ph)
                continue
            self.form[m] = self.classify(m, ph, init, new, phs)
        # solve the cells whose step only needs solved cells; cyclic ones become (joint) folds
        self.pre = {}
        self.final = final
        todo = [m for m in final if m in self.form]
        while todo:
            open_ = {final[m][0] for m in todo}
            ready = [m for m in todo
                     if self.form[m][0] != 'fold' and not any(x in open_ for x in self.terms_of(self.form[m][1]))]
            if ready:
                for m in ready:
                    kind, payload, init, ph = self.form[m]
                    self.form[m] = (kind, self.sub(payload, self.pre), init, ph)
                for m in ready:
                    self.pre[final[m][0]] = self.prefix_value(m)
                todo = [m for m in todo if m not in ready]
                continue
            best = None
            for m in todo:
                cl = self.closure(m, todo)
                if m in cl and (best is None or (len(cl), str(m)) < (len(best[1]), str(best[0]))):
                    best = (m, cl)
            if best is None:
                best = (todo[0], self.closure(todo[0], todo) | {todo[0]})
            cl = best[1]
            done = {}
            for m in cl:
                c2 = self.closure(m, todo) | {m}
                done[m] = ('gfold', self.system(m, c2), final[m][1], final[m][0])
            for m in done:
                self.form[m] = done[m]
            for m in done:
                self.pre[final[m][0]] = self.prefix_value(m)
            todo = [m for m in todo if m not in done]

    def terms_of(self, payload):
        if isinstance(payload, T):
            return subterms(payload)
        return subterms(payload[1])

    def closure(self, m, todo):
        """Cells (among todo) that the value of m after one more iteration depends on."""
        ph_of = {self.final[k][0]: k for k in todo}
        out, stack = set(), [m]
        while stack:
            k = stack.pop()
            new = subst(self.final[k][2], self.pre)
            for x in subterms(new):
                if x in ph_of and ph_of[x] not in out:
                    out.add(ph_of[x])
                    stack.append(ph_of[x])
        return out

    def system(self, m, cells):
        """Joint recurrence of m (first) and of the cells it depends on: (steps, inits)."""
        anon = {self.final[k][0]: (raw('anon') if self.final[k][0].op == 'lv' else raw('spread', raw('anon')))
                for k in cells}
        steps = {k: subst(self.final[k][2], self.pre) for k in cells}

        def key(k):
            return (k != m, tm.sort_key(subst(steps[k], anon)), tm.sort_key(self.final[k][1]))

        order = sorted(cells, key=key)
        ren = {}
        for n, k in enumerate(order):
            ph = self.final[k][0]
            v = raw('foldv', self.lid, n)
            ren[ph] = v if ph.op == 'lv' else raw('spread', v)

        def val(k, t):
            return t if self.final[k][0].op == 'lv' else raw('list', t)

        return (raw('tuple', *[val(k, subst(steps[k], ren)) for k in order]),
                raw('tuple', *[val(k, self.final[k][1]) for k in order]))

    @staticmethod
    def sub(payload, d):
        if isinstance(payload, T):
            return subst(payload, d)
        return payload

    def classify(self, m, ph, init, new, phs):
        if new is ph:
            return ('same', NONE, init, ph)
        if ph.op == 'lvseq':
            parts = tm.cat_parts(new)
            if parts and parts[0] is ph:
                rest = mk_cat(*parts[1:])
                return ('append', rest, init, ph)
            st = strip_prefix(new, ph)
            if st is not None:
                return ('append', st, init, ph)
            return ('fold', new, init, ph)
        if init is UNDEF or not mentions(new, ph):
            return ('temp', new, init, ph)
        c, parts = tm.lin_parts(new)
        coef = [k for t, k in parts if t is ph]
        if coef == [1]:
            d = mk_lin(c, [(t, k) for t, k in parts if t is not ph])
            if not mentions(d, ph):
                return ('sum', d, init, ph)
        d = ite_sum(new, ph)
        if d is not None and not mentions(d, ph):
            return ('sum', d, init, ph)
        if new.op == 'strcat' and new.args[0] is ph and not any(mentions(a, ph) for a in new.args[1:]):
            return ('strapp', mk_strcat(*new.args[1:]), init, ph)
        ls = leaf_seq(new, ph)
        if ls is not None and not mentions(ls, ph):
            return ('last', ls, init, ph)
        fl = or_flag(new, ph)
        if fl is not None:
            return ('flag', fl, init, ph)
        return ('fold', new, init, ph)

    def prefix_value(self, m):
        """Value of the cell at the start of iteration idx(lid)."""
        kind, payload, init, ph = self.form[m]
        if kind == 'sum':
            return lin_add(init, psum(self.src, self.lid, payload, self.i))
        if kind == 'temp' and init is UNDEF:
            return init
        if kind == 'temp':
            prev = subst(payload, {self.i: mk_lin(-1, [(self.i, 1)])})
            return mk_ite(mk_lt(const(0), self.i), prev, init)
        l2 = tm.fresh_lid()
        sub = {self.i: idx(l2)}
        form = self.form[m]
        if isinstance(payload, T):
            p2 = subst(payload, sub)
        elif kind == 'flag':
            p2 = (payload[0], subst(payload[1], sub))
        else:
            f = lambda t: rename_foldv(subst(t, sub), self.lid, l2)
            p2 = tuple(f(x) for x in payload)
        self.form[m] = (kind, p2, init, ph)
        lid, i = self.lid, self.i
        self.lid, self.i = l2, idx(l2)
        v = self.value(m, raw('take', self.src, i))
        self.lid, self.i = lid, i
        self.form[m] = form
        return v

    def value(self, m, src):
        kind, payload, init, ph = self.form[m]
        if kind == 'same':
            return init
        if kind == 'append':
            return mk_cat(init, mk_fmap(src, self.lid, payload))
        if kind == 'sum':
            return lin_add(init, mk_sum(src, self.lid, payload))
        if kind == 'temp':
            v = raw('last', mk_spread_list(mk_fmap(src, self.lid, one(payload))))
            if not mentions(payload, self.i):
                v = payload
            if init is UNDEF:
                return v
            return mk_ite(mk_nonempty(src), v, init)
        if kind == 'strapp':
            return mk_strcat(init, raw('join', const(''), raw('list', mk_fmap(src, self.lid, one(payload)))))
        if kind == 'last':
            seq = mk_fmap(src, self.lid, payload)
            vals = leaf_values(payload)
            if len(vals) == 1 and not mentions(vals[0], self.i):
                return mk_ite(tm.seq_nonempty(seq), vals[0], init)
            return raw('lastof', seq, init)
        if kind == 'flag':
            op, c = payload
            if op == 'or':
                return mk_or(init, mk_exists(src, self.lid, c))
            return mk_and(init, mk_not(mk_exists(src, self.lid, mk_not(c))))
        if kind == 'gfold':
            v = raw('fold', src, self.lid, payload[0], payload[1])
            return v if ph.op == 'lv' else mk_spread(v)
        raise AssertionError(kind)

    def apply(self, st, src):
        for m in self.form:
            kind, payload, init, ph = self.form[m]
            v = self.value(m, src)
            if m[0] == 'v':
                st.vars[m[1:]] = v
            elif m[0] == 'h':
                st.heap[m[1]] = st.heap[m[1]].with_content(v)
            elif m[0] == 'l':
                st.vars[m[1:]] = self.it.alloc(st.heap[st.vars[m[1:]].args[0]].kind, v, st)
            else:
                d = dict(st.heap[m[1]].content)
                d[m[2]] = v
                st.heap[m[1]] = st.heap[m[1]].with_content(d)

    def at(self, src):
        return {self.form[m][3]: self.value(m, src) for m in self.form}

    def prefix_subst(self, i):
        pre = self.pre

        def f(t):
            return subst(t, pre)

        return f


def reachable(x, ref, facts):
    """Can x (a value with gates) contain ref when the facts hold?"""
    if x is ref:
        return True
    if ref not in subterms(x):
        return False
    if x.op in ('ite', 'site'):
        c = simp_under(x.args[0], facts)
        return (c is not FALSE and reachable(x.args[1], ref, facts | frozenset(tm.conj_parts(c))) or
                c is not TRUE and reachable(x.args[2], ref, facts | frozenset(tm.conj_parts(mk_not(c)))))
    return any(reachable(k, ref, facts) for k in tm.kids(x))


def rename_foldv(t, lid, l2):
    m = {x: raw('foldv', l2, x.args[1]) for x in subterms(t) if x.op == 'foldv' and x.args[0] == lid}
    return subst(t, m)


def mk_spread_list(seq):
    return raw('list', seq)


def ite_sum(new, ph):
    """new = ph + (gated increments) -> increment term."""
    if new is ph:
        return const(0)
    if new.op == 'ite':
        a, b = ite_sum(new.args[1], ph), ite_sum(new.args[2], ph)
        if a is None or b is None:
            return None
        return mk_ite(new.args[0], a, b)
    c, parts = tm.lin_parts(new)
    coef = [k for t, k in parts if t is ph]
    if coef == [1]:
        return mk_lin(c, [(t, k) for t, k in parts if t is not ph])
    return None


def strip_prefix(seq, ph):
    """seq = ph ++ rest on every gate -> rest."""
    if seq is ph:
        return EMPTY
    if seq.op == 'cat' and seq.args and seq.args[0] is ph:
        return mk_cat(*seq.args[1:])
    if seq.op == 'cat' and seq.args:
        r = strip_prefix(seq.args[0], ph)
        return None if r is None else mk_cat(r, *seq.args[1:])
    if seq.op == 'site':
        a, b = strip_prefix(seq.args[1], ph), strip_prefix(seq.args[2], ph)
        if a is None or b is None:
            return None
        return seq_ite(seq.args[0], a, b)
    return None


def leaf_seq(v, ph):
    if v is ph:
        return EMPTY
    if v.op == 'ite':
        a, b = leaf_seq(v.args[1], ph), leaf_seq(v.args[2], ph)
        if a is None or b is None:
            return None
        return seq_ite(v.args[0], a, b)
    if mentions(v, ph):
        return None
    return one(v)


def leaf_values(seq):
    if seq.op == 'one':
        return [seq.args[0]]
    out = []
    if seq.op == 'site':
        for x in seq.args[1:]:
            for v in leaf_values(x):
                if v not in out:
                    out.append(v)
    elif seq.op == 'cat':
        for x in seq.args:
            for v in leaf_values(x):
                if v not in out:
                    out.append(v)
    return out


def or_flag(new, ph):
    t = raw('truthy', ph)
    if new.op == 'or' and (ph in new.args or t in new.args):
        rest = mk_or(*[a for a in new.args if a is not ph and a is not t])
        if not mentions(rest, ph):
            return ('or', rest)
    if new.op == 'and' and (ph in new.args or t in new.args):
        rest = mk_and(*[a for a in new.args if a is not ph and a is not t])
        if not mentions(rest, ph):
            return ('and', rest)
    return None


def psum(src, lid, d, i):
    if is_const(d) and not mentions(d, idx(lid)):
        return mk_mul(d, i)
    l2 = tm.fresh_lid()
    return raw('psum', src, l2, subst(d, {idx(lid): idx(l2)}), i)


def mk_sum(src, lid, d):
    if not mentions(d, idx(lid)):
        return mk_mul(d, mk_len(src))
    if d.op == 'ite' and all(is_int(x) for x in d.args[1:]):
        pass
    return raw('sum', src, lid, d)


def own_writes(base, v, elem):
    while v is not base:
        if v.op == 'ite':
            return own_writes(base, v.args[1], elem) and own_writes(base, v.args[2], elem)
        if v.op != 'ver' or v.args[1].op != 'one' or v.args[1].args[0].args[0] is not elem:
            return False
        v = v.args[0]
    return True


def st_ver(st, n):
    return st.vers.get(n, NONE)


