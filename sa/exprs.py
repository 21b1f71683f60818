"""Expression evaluation of the abstract interpreter."""
import ast
import copy

from . import terms as tm
from .terms import (T, raw, const, enum, top, sym, NONE, TRUE, FALSE, EMPTY, mk_ite, mk_and, mk_or, mk_not, mk_eq,
                    mk_isnone, mk_in, mk_item, mk_len, mk_cat, mk_spread, mk_slice, mk_lin, mk_lt, mk_le, mk_nonempty,
                    mk_strcat, seq_ite, mk_fmap, mk_exists, one, idx, subst, mentions, is_const, is_lit, is_str, is_int,
                    cval, subterms, lin_add, lin_sub, mk_mul, is_num)
from .loader import AnalysisError
from . import base as B
from .base import UNDEF, STR_METHODS, MUTATORS, DICT_METHODS, Func, mangle, simp_under, known_len


RICH = {'Eq': ('__eq__', '__eq__'), 'NotEq': ('__ne__', '__ne__'), 'Lt': ('__lt__', '__gt__'),
        'LtE': ('__le__', '__ge__'), 'Gt': ('__gt__', '__lt__'), 'GtE': ('__ge__', '__le__')}


class Exprs(object):

    def ev(self, node, st, fr):
        m = getattr(self, 'ev_' + type(node).__name__, None)
        if m is None:
            return self.note('unsupported expression %s' % type(node).__name__, node)
        return m(node, st, fr)

    def val(self, v, st):
        """Value used inside a term: containers are read now (one level), objects stay references."""
        return self.peek(v, st)

    def ev_Constant(self, node, st, fr):
        return const(node.value)

    def ev_Name(self, node, st, fr):
        name = node.id
        cls = self.cur_class(fr)
        if cls is not None and name.startswith('__') and not name.endswith('__'):
            name = mangle(name, cls)
        v = self.lookup(name, st, fr)
        if v.op == 'lib' and name == '__class__':
            return v
        return self.refine(v, st)

    def refine(self, v, st):
        while v.op == 'ite' and st.facts:
            c = simp_under(v.args[0], st.facts)
            if c is TRUE:
                v = v.args[1]
            elif c is FALSE:
                v = v.args[2]
            else:
                break
        return v

    def cur_class(self, fr):
        f = self.frame_func.get(fr)
        return f.cls if f is not None else None

    def ev_Tuple(self, node, st, fr):
        seqs = []
        for e in node.elts:
            if isinstance(e, ast.Starred):
                seqs.append(self.iter_seq(self.ev(e.value, st, fr), st, node))
            else:
                seqs.append(one(self.ev(e, st, fr)))
        s = mk_cat(*seqs)
        f = tm.flat_ones(s)
        if f is not None:
            return raw('tuple', *f)
        return raw('list', s)

    def ev_List(self, node, st, fr):
        seqs = []
        for e in node.elts:
            if isinstance(e, ast.Starred):
                seqs.append(self.iter_seq(self.ev(e.value, st, fr), st, node))
            else:
                seqs.append(one(self.ev(e, st, fr)))
        return self.alloc('list', mk_cat(*seqs), st)

    def ev_Set(self, node, st, fr):
        v = self.ev_List(node, st, fr)
        r = st.heap[v.args[0]]
        return self.alloc('set', r.content, st)

    def ev_Dict(self, node, st, fr):
        seqs = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                d = self.peek(self.ev(v, st, fr), st)
                seqs.append(d.args[0] if d.op == 'dict' else raw('spread', raw('items', d)))
            else:
                kk = self.ev(k, st, fr)
                seqs.append(one(raw('tuple', kk, self.ev(v, st, fr))))
        return self.alloc('dict', mk_cat(*seqs), st)

    def ev_JoinedStr(self, node, st, fr):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value, st, fr)
                spec = None
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, st, fr)
                if spec is None or (is_str(spec) and cval(spec) in ('', 's')):
                    parts.append(self.to_str(x, st) if v.conversion in (-1, 115) else raw('fmt', 'r', x))
                elif is_str(spec):
                    sp = cval(spec)
                    parts.append(self.to_str(x, st) if sp == 'd' else raw('fmt', sp, x))
                else:
                    parts.append(raw('fmt', spec, x))
        return mk_strcat(*parts)

    def ev_FormattedValue(self, node, st, fr):
        return self.ev_JoinedStr(ast.JoinedStr(values=[node]), st, fr)

    def to_str(self, v, st, meths=('__str__', '__repr__')):
        ci = self.class_of(v, st)
        if ci is not None:
            for m in meths:
                f = self.class_lookup(ci, m)
                if f is not None and f.op == 'func':
                    return self.call(raw('bound', f, v), [], {}, st, None)
        v = self.peek(v, st)
        if is_const(v):
            return const(str(cval(v)))
        if tm.stringy(v):
            return v
        return raw('str', v)

    def ev_Lambda(self, node, st, fr):
        return self.make_func(node, st, fr)

    def ev_IfExp(self, node, st, fr):
        c = self.cond(self.ev(node.test, st, fr), st)
        if c is TRUE:
            return self.ev(node.body, st, fr)
        if c is FALSE:
            return self.ev(node.orelse, st, fr)
        return self.cond_values(c, st, lambda s: self.ev(node.body, s, fr), lambda s: self.ev(node.orelse, s, fr))

    def cond_values(self, c, st, fa, fb):
        s1, s2 = st.copy(), st.copy()
        s1.assume(c)
        s2.assume(mk_not(c))
        s1.pc = mk_and(st.pc, c)
        s2.pc = mk_and(st.pc, mk_not(c))
        a = fa(s1)
        b = fb(s2)
        pend = [(mk_and(c, x), e, s) for x, e, s in s1.pending] + [(mk_and(mk_not(c), x), e, s) for x, e, s in
                                                                   s2.pending]
        pc, facts, old = st.pc, st.facts, st.pending
        st.become(self.merge(c, s1, s2))
        st.pc, st.facts, st.pending = pc, facts, old + pend
        if a.op == 'ref' and b.op == 'ref' and a is not b:
            ra, rb = st.heap[a.args[0]], st.heap[b.args[0]]
            mark = getattr(self, '_fresh_mark', None)
            if ra.kind == rb.kind and ra.kind != 'obj' and self.is_fresh(a, s1, st) and self.is_fresh(b, s2, st):
                return self.alloc(ra.kind, seq_ite(c, ra.content, rb.content), st)
        return mk_ite(c, a, b)

    def is_fresh(self, v, s, st):
        return False

    def ev_BoolOp(self, node, st, fr):
        is_and = isinstance(node.op, ast.And)
        v = self.ev(node.values[0], st, fr)
        return self.boolop_rest(is_and, v, node.values[1:], st, fr)

    def boolop_rest(self, is_and, v, rest, st, fr):
        if not rest:
            return v
        c = self.cond(v, st)
        if c is (FALSE if is_and else TRUE):
            return v
        if c is (TRUE if is_and else FALSE):
            return self.boolop_rest(is_and, self.ev(rest[0], st, fr), rest[1:], st, fr)
        if is_and:
            return self.cond_values(c, st, lambda s: self.boolop_rest(is_and, self.ev(rest[0], s, fr), rest[1:], s,
                                                                      fr), lambda s: v if not tm.is_bool(v) else FALSE)
        return self.cond_values(c, st, lambda s: v if not tm.is_bool(v) else TRUE,
                                lambda s: self.boolop_rest(is_and, self.ev(rest[0], s, fr), rest[1:], s, fr))

    def ev_UnaryOp(self, node, st, fr):
        v = self.ev(node.operand, st, fr)
        if isinstance(node.op, ast.Not):
            return mk_not(self.cond(v, st))
        v = self.peek(v, st)
        if isinstance(node.op, ast.USub):
            if is_num(v):
                return const(-cval(v))
            return tm.lin_scale(v, -1)
        if isinstance(node.op, ast.UAdd):
            return v
        return raw('invert', v)

    def ev_NamedExpr(self, node, st, fr):
        v = self.ev(node.value, st, fr)
        f = fr
        while getattr(self.frame_func.get(f), 'is_comp', False):
            f = self.frame_parent[f]
        self.set_var(node.target.id, v, st, f)
        return v

    def ev_Starred(self, node, st, fr):
        return self.ev(node.value, st, fr)

    def ev_Compare(self, node, st, fr):
        left = self.ev(node.left, st, fr)
        parts = []
        for op, right in zip(node.ops, node.comparators):
            r = self.ev(right, st, fr)
            parts.append(self.compare(op, left, r, st, node))
            left = r
        return self.simp(mk_and(*parts), st) if len(parts) > 1 else self.simp(parts[0], st)

    def compare(self, op, a, b, st, node):
        n = type(op).__name__
        if n in ('Is', 'IsNot'):
            if b is NONE or a is NONE:
                c = mk_isnone(self.peek(a if b is NONE else b, st)) if (a if b is NONE else b).op != 'ref' else FALSE
            elif is_lit(b) or is_lit(a):
                c = mk_eq(a, b)
            else:
                c = self.identity(a, b)
            return c if n == 'Is' else mk_not(c)
        if n in ('In', 'NotIn'):
            c = self.contains(a, b, st, node)
            return c if n == 'In' else mk_not(c)
        for x, y, m in ((a, b, RICH[n][0]), (b, a, RICH[n][1])):
            f = self.own_method(x, m, st)
            if f is not None:
                return self.cond(self.call(raw('bound', f, x), [y], {}, st, node), st)
        av, bv = self.peek(a, st), self.peek(b, st)
        if n in ('Eq', 'NotEq'):
            if a.op == 'ref' and b.op == 'ref' and (st.heap[a.args[0]].kind == 'obj' or
                                                    st.heap[b.args[0]].kind == 'obj'):
                c = self.identity(a, b)
            elif av.op in ('list', 'dict', 'set') and bv.op == av.op and (av.args[0] is EMPTY or bv.args[0] is EMPTY):
                c = mk_not(mk_nonempty(bv if av.args[0] is EMPTY else av))
            elif av.op in ('list', 'dict', 'set') and av.args[0] is EMPTY or bv.op in ('list', 'dict', 'set') and \
                    bv.args[0] is EMPTY:
                c = mk_not(mk_nonempty(bv if av.op in ('list', 'dict', 'set') and av.args[0] is EMPTY else av))
            else:
                c = mk_eq(av, bv)
            return c if n == 'Eq' else mk_not(c)
        if n == 'Lt':
            return self.order(mk_lt, av, bv, 'lt', st, node)
        if n == 'LtE':
            return self.order(mk_le, av, bv, 'le', st, node)
        if n == 'Gt':
            return self.order(mk_lt, bv, av, 'lt', st, node)
        if n == 'GtE':
            return self.order(mk_le, bv, av, 'le', st, node)
        return self.note('comparison ' + n, node)

    def own_method(self, o, name, st):
        """A method the class of the object defines itself."""
        ci = None
        if o.op == 'ref' and st.heap[o.args[0]].kind == 'obj':
            ci = self.classes.get(st.heap[o.args[0]].cls)
        elif o.op == 'obj':
            ci = self.classes.get(o.args[0])
        if ci is None or self.class_lookup(ci, name) is None:
            return None
        return self.class_lookup(ci, name)

    def order(self, f, a, b, name, st, node):
        if a.op in ('set',) and b.op == 'set':
            return raw('setcmp', name, a, b)
        return f(a, b)

    def identity(self, a, b):
        if a is b:
            return TRUE
        if a.op == 'ref' and b.op == 'ref':
            return FALSE
        if a.op == 'ite':
            return mk_ite(a.args[0], self.identity(a.args[1], b), self.identity(a.args[2], b))
        if b.op == 'ite':
            return mk_ite(b.args[0], self.identity(a, b.args[1]), self.identity(a, b.args[2]))
        if a.op == 'ref' or b.op == 'ref':
            # a freshly allocated object against an input value
            other = b if a.op == 'ref' else a
            if any(x.op in ('fixpar', 'wv', 'foldv', 'ref', 'fixval', 'recval', 'wout', 'fold') for x in subterms(other)):
                return raw('is', a, b)
            return FALSE
        return mk_eq(a, b)

    def contains(self, x, c, st, node):
        if c.op == 'ref':
            r = st.heap[c.args[0]]
            if r.kind == 'obj':
                ci = self.classes.get(r.cls)
                m = self.class_lookup(ci, '__contains__') if ci else None
                if m is not None:
                    return self.cond(self.call(raw('bound', m, c), [x], {}, st, node), st)
        cv = self.peek(c, st)
        xv = self.peek(x, st)
        if cv.op == 'ite':
            return mk_ite(cv.args[0], self.contains(x, cv.args[1], st, node), self.contains(x, cv.args[2], st, node))
        if cv.op in ('list', 'set'):
            s = self.iter_seq(cv, st, node) if cv.op == 'list' else cv.args[0]
            return self.seq_contains(xv, s, st)
        if cv.op == 'dict':
            s = tm.over_seq(cv.args[0], lambda p: one(tm.upd_key(p)))
            if s is not None:
                return self.seq_contains(xv, s, st)
        if cv.op == 'add':
            return mk_or(*[self.contains(x, a, st, node) for a in cv.args])
        if cv.op == 'class' and self.classes[cv.args[0]].is_enum:
            return mk_or(*[mk_eq(xv, m) for m in self.classes[cv.args[0]].members])
        return mk_in(xv, cv)

    def seq_contains(self, x, s, st):
        if s.op == 'one':
            y = s.args[0]
            if x.op == 'ref' or y.op == 'ref':
                return self.identity(x, y)
            return mk_eq(x, y)
        if s.op == 'cat':
            lits = [p.args[0] for p in s.args if p.op == 'one' and is_lit(p.args[0])]
            rest = [self.seq_contains(x, p, st) for p in s.args if not (p.op == 'one' and is_lit(p.args[0]))]
            if lits:
                rest.append(tm.mk_memb(x, frozenset(lits)))
            return mk_or(*rest)
        if s.op == 'site':
            return mk_ite(s.args[0], self.seq_contains(x, s.args[1], st), self.seq_contains(x, s.args[2], st))
        if s.op == 'spread':
            return mk_in(x, s.args[0])
        if s.op == 'fmap':
            return mk_exists(s.args[0], s.args[1], self.seq_contains(x, s.args[2], st))
        return raw('in', x, raw('list', s))

    # ------------------------------------------------------------------------------------------
    # operators
    # ------------------------------------------------------------------------------------------

    def ev_BinOp(self, node, st, fr):
        a = self.ev(node.left, st, fr)
        b = self.ev(node.right, st, fr)
        return self.binop(node.op, a, b, st, node)

    def binop(self, op, a, b, st, node):
        n = type(op).__name__
        av, bv = self.peek(a, st), self.peek(b, st)
        if n == 'Mod' and (is_str(av) or av.op == 'strcat'):
            return self.str_format(av, bv, st, node)
        if av.op == 'ite' and n in ('Add', 'Sub') and not tm.numeric(bv) and any(
                x.op in ('list', 'tuple', 'ref') for x in av.args[1:]):
            return mk_ite(av.args[0], self.binop(op, av.args[1], b, st, node), self.binop(op, av.args[2], b, st, node))
        if n == 'Add':
            if av.op == 'tuple' and bv.op == 'tuple':
                return raw('tuple', *(av.args + bv.args))
            if av.op in ('list', 'tuple', 'repeat') or bv.op in ('list', 'tuple', 'repeat'):
                return self.alloc('list', mk_cat(self.iter_seq(a, st, node), self.iter_seq(b, st, node)), st)
            if is_const(av) and is_const(bv):
                try:
                    return const(cval(av) + cval(bv))
                except Exception:
                    return self.note('constant addition', node)
            if tm.stringy(av) or tm.stringy(bv):
                return mk_strcat(*(unadd(av) + unadd(bv)))
            if tm.numeric(av) or tm.numeric(bv) or av.op in NUMOPS or bv.op in NUMOPS:
                return lin_add(av, bv)
            if av is bv and av.op != 'top':
                return tm.lin_scale(av, 2)
            return raw('add', *(unadd(av) + unadd(bv)))
        if n == 'Sub':
            if av.op in ('set',) or bv.op == 'set':
                return self.set_op('sub', av, bv, st)
            if is_const(av) and is_const(bv):
                return const(cval(av) - cval(bv))
            return lin_sub(av, bv)
        if n in ('BitOr', 'BitAnd', 'BitXor'):
            if is_int(av) and is_int(bv) or (tm.is_const(av) and tm.is_const(bv)):
                x, y = cval(av), cval(bv)
                return const(x | y if n == 'BitOr' else x & y if n == 'BitAnd' else x ^ y)
            if av.op == 'set' or bv.op == 'set':
                return self.set_op({'BitOr': 'or', 'BitAnd': 'and', 'BitXor': 'xor'}[n], av, bv, st)
            if av.op == 'lib' or bv.op == 'lib':
                return raw('flags', *sorted([av, bv]))
            if tm.is_bool(av) and tm.is_bool(bv):
                return mk_or(av, bv) if n == 'BitOr' else mk_and(av, bv) if n == 'BitAnd' else mk_not(mk_eq(av, bv))
            return raw(n.lower(), av, bv)
        if n == 'Mult':
            if av.op in ('list', 'tuple') or bv.op in ('list', 'tuple'):
                l, k = (av, bv) if av.op in ('list', 'tuple') else (bv, av)
                ones = tm.flat_ones(mk_spread(l))
                if ones is not None and len(ones) == 1:
                    if tm.is_lit(ones[0]) and is_int(k) and 0 <= cval(k) <= 64:
                        return self.alloc('list', mk_cat(*[one(ones[0]) for _ in range(cval(k))]), st)
                    if tm.is_lit(ones[0]):
                        return self.alloc('list', tm.mk_fmap(raw('range', const(0), k, const(1)), tm.fresh_lid(),
                                                             tm.one(ones[0])), st)
                    return self.alloc('list', raw('spread', raw('repeat', ones[0], k)), st)
                return raw('mulseq', l, k)
            if is_num(av) and is_num(bv):
                return const(cval(av) * cval(bv))
            if is_str(av) or is_str(bv):
                return raw('mulstr', av, bv)
            return mk_mul(av, bv)
        if n == 'Div':
            if av.op in ('lib', 'path', 'modfile', 'strm') or (is_str(bv) and not is_num(av)):
                return raw('path', av, bv)
            if is_num(av) and is_num(bv) and cval(bv) != 0:
                return const(cval(av) / cval(bv))
            return raw('div', av, bv)
        if n in ('FloorDiv', 'Mod'):
            return tm.mk_intdiv('floordiv' if n == 'FloorDiv' else 'mod', av, bv)
        if n == 'Pow':
            if is_int(av) and is_int(bv) and 0 <= cval(bv) <= 16 and abs(cval(av)) <= 1024:
                return const(cval(av) ** cval(bv))
            return raw('pow', av, bv)
        return self.note('operator ' + n, node)

    def set_op(self, op, a, b, st):
        fa = tm.flat_ones(a.args[0]) if a.op == 'set' else None
        fb = tm.flat_ones(b.args[0]) if b.op == 'set' else None
        if fa is not None and fb is not None and all(is_lit(x) for x in fa + fb):
            sa, sb = set(fa), set(fb)
            r = sa - sb if op == 'sub' else sa | sb if op == 'or' else sa & sb if op == 'and' else sa ^ sb
            return self.alloc('set', mk_cat(*[one(x) for x in sorted(r, key=tm.sort_key)]), st)
        if op == 'or':
            return self.alloc('set', mk_cat(mk_spread(a) if a.op != 'set' else a.args[0],
                                            mk_spread(b) if b.op != 'set' else b.args[0]), st)
        return raw('setop', op, a, b)

    def str_format(self, fmt, arg, st, node):
        parts = list(fmt.args) if fmt.op == 'strcat' else [fmt]
        args = list(arg.args) if arg.op == 'tuple' else [arg]
        out = []
        import re
        k = 0
        for p in parts:
            if not is_str(p):
                out.append(p)
                continue
            s = cval(p)
            pos = 0
            for m in re.finditer(r'%(%|[-+0# ]*\d*(?:\.\d+)?[sdfrgex])', s):
                out.append(const(s[pos:m.start()]))
                pos = m.end()
                spec = m.group(1)
                if spec == '%':
                    out.append(const('%'))
                    continue
                if k >= len(args):
                    return self.note('format arguments', node)
                x = self.peek(args[k], st)
                k += 1
                if spec in ('s', 'd'):
                    out.append(self.to_str(x, st))
                else:
                    out.append(raw('fmt', spec, x))
            out.append(const(s[pos:]))
        return mk_strcat(*out)

    # ------------------------------------------------------------------------------------------
    # sequences
    # ------------------------------------------------------------------------------------------

    def slots(self, content, what):
        """The entries of a dict made of a few known pairs: a key keeps its first place and takes its last value."""
        f = tm.guarded_ones(content)
        if not f or len(f) > 4 or any(p.op != 'tuple' or len(p.args) != 2 for _, p in f):
            return None
        out = []
        for i, (g, p) in enumerate(f):
            k = p.args[0]
            new = mk_and(g, *[mk_not(mk_and(h, mk_eq(q.args[0], k))) for h, q in f[:i]])
            v = p.args[1]
            if what != 'keys':
                for h, q in f[i + 1:]:
                    v = mk_ite(mk_and(h, mk_eq(q.args[0], k)), q.args[1], v)
            out.append(seq_ite(new, one(k if what == 'keys' else v if what == 'values' else raw('tuple', k, v)), EMPTY))
        return mk_cat(*out)

    def iter_seq(self, v, st, node=None):
        """Sequence of the elements produced by iterating v."""
        if v.op == 'ref':
            r = st.heap[v.args[0]]
            if r.kind in ('list', 'deque'):
                return r.content
            if r.kind == 'iter':
                st.heap[v.args[0]] = r.with_content(EMPTY)
                return r.content
            if r.kind == 'set':
                f = tm.flat_ones(r.content)
                if f is not None and len(f) <= 1:
                    return r.content
                if f is not None and len(f) <= 6 and all(x.op == 'ref' and x.args[0] in tm.IDENT for x in f):
                    return mk_cat(*[one(x) for x in dict.fromkeys(f)])
                return raw('spread', raw('set', r.content))
            if r.kind == 'dict':
                return self.iter_seq(raw('keys', raw('dict', r.content)), st, node)
            if r.kind == 'arr':
                return raw('spread', raw('arr', r.content))
            ci = self.classes.get(r.cls)
            if ci is not None:
                m = self.class_lookup(ci, '__iter__')
                if m is not None:
                    w = self.call(raw('bound', m, v), [], {}, st, node)
                    return self.iter_seq(w, st, node) if w is not v else self.drain(ci, v, st, node)
                if self.class_lookup(ci, '__next__') is not None:
                    return self.drain(ci, v, st, node)
                if ci.fields is not None:
                    return mk_cat(*[one(r.content[n]) for n, _ in ci.fields])
            self.note('iteration over %s' % r.cls, node)
            return raw('spread', v)
        op = v.op
        if op == 'tuple':
            return mk_cat(*[one(x) for x in v.args])
        if op == 'list':
            return v.args[0]
        if op == 'set':
            return raw('spread', v)
        if op == 'ite':
            return seq_ite(v.args[0], self.iter_seq(v.args[1], st, node), self.iter_seq(v.args[2], st, node))
        if op in ('values', 'keys', 'items') and v.args[0].op == 'dict':
            f = tm.flat_ones(v.args[0].args[0])
            if f is not None and all(p.op == 'tuple' and is_lit(p.args[0]) for p in f) and \
                    len({p.args[0] for p in f}) == len(f):
                return mk_cat(*[one(p if op == 'items' else p.args[0] if op == 'keys' else p.args[1]) for p in f])
            r = self.slots(v.args[0].args[0], op)
            if r is not None:
                return r
        if op == 'dict':
            return self.iter_seq(raw('keys', v), st, node)
        if op == 'add':
            return mk_cat(*[self.iter_seq(a, st, node) for a in v.args])
        if op == 'libcall' and v.args[0] == 'contract.load_dict_from_txt_file':
            return mk_spread(raw('keys', v))
        if op == 'obj' and v.args[0] in self.classes:
            m = self.class_lookup(self.classes[v.args[0]], '__iter__')
            if m is not None:
                return self.iter_seq(self.call(raw('bound', m, v), [], {}, st, node), st, node)
        if op == 'class' and self.classes[v.args[0]].is_enum:
            return mk_cat(*[one(m) for m in self.classes[v.args[0]].members])
        if op == 'const' and isinstance(cval(v), (str, tuple)):
            return mk_cat(*[one(const(c)) for c in cval(v)])
        if op in ('zip', 'enumerate', 'range', 'reversed'):
            n = known_len(v)
            if n is not None and n <= 64:
                return mk_cat(*[one(mk_item(v, const(i))) for i in range(n)])
        if op == 'reversed' and v.args[0].op == 'list':
            f = tm.flat_ones(v.args[0].args[0])
            if f is not None:
                return mk_cat(*[one(x) for x in reversed(f)])
        if op == 'slice' and v.args[0].op == 'list' and v.args[3] is NONE:
            pass
        if op == 'attr' or op in ('sym', 'item', 'call', 'mcall', 'strm', 'krow_batch'):
            pass
        if op == 'filter':
            pass
        return mk_spread(v)

    def drain(self, ci, v, st, node):
        """What is left in an object that is its own iterator, when its __next__ takes from another iterator."""
        m = self.class_lookup(ci, '__next__')
        fi = self.funcs.get(m.args[0]) if m is not None and m.op == 'func' else None
        body = [x for x in fi.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))] if fi else []
        if len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Call) and \
                isinstance(body[0].value.func, ast.Name) and body[0].value.func.id == 'next' and len(body[0].value.args) == 1:
            g = copy.copy(fi)
            g.node = copy.copy(fi.node)
            g.node.body = [ast.copy_location(ast.Return(value=body[0].value.args[0]), body[0])]
            key = (m.args[0], 'source')
            self.funcs[key] = g
            return self.iter_seq(self.call(raw('bound', raw('func', key), v), [], {}, st, node), st, node)
        self.note('iteration over an iterator object', node)
        return raw('spread', self.freeze(v, st))

    def ev_ListComp(self, node, st, fr):
        return self.comp(node, st, fr, 'list')

    def ev_SetComp(self, node, st, fr):
        return self.comp(node, st, fr, 'set')

    def ev_GeneratorExp(self, node, st, fr):
        return self.comp(node, st, fr, 'list')

    def ev_DictComp(self, node, st, fr):
        return self.comp(node, st, fr, 'dict')

    def comp(self, node, st, fr, kind):
        cf = next(self.frames)
        self.frame_birth[cf] = next(self.locs)
        self.frame_parent[cf] = fr
        self.frame_module[cf] = self.frame_module[fr]
        outer = self.frame_func.get(fr)
        fk = Func.__new__(Func)
        fk.qual = outer.qual if outer else '<module>'
        fk.cls = outer.cls if outer else None
        fk.module = self.frame_module[fr]
        fk.globals, fk.nonlocals = set(), set()
        fk.is_comp = True
        self.frame_func[cf] = fk
        acc = self.alloc(kind, EMPTY, st)
        loc = acc.args[0]
        gens = node.generators

        def run_gen(k, s):
            if k == len(gens):
                if kind == 'dict':
                    kk = self.ev(node.key, s, cf)
                    v = raw('tuple', kk, self.ev(node.value, s, cf))
                else:
                    v = self.ev(node.elt, s, cf)
                ab = self.flush(s, node)
                r = s.heap[loc]
                s.heap[loc] = r.with_content(mk_cat(r.content, one(v)))
                return ab, True
            g = gens[k]
            it = self.ev(g.iter, s, cf if k else fr)
            ab = self.flush(s, node)
            seq = self.iter_seq(it, s, node)

            def body(s2, v):
                self.assign(g.target, v, s2, cf)
                return run_ifs(s2, list(g.ifs))

            def run_ifs(s2, ifs):
                if not ifs:
                    return run_gen(k + 1, s2)
                c = self.cond(self.ev(ifs[0], s2, cf), s2)
                a0 = self.flush(s2, node)
                if c is TRUE:
                    a1, al = run_ifs(s2, ifs[1:])
                    return a0 + a1, al
                if c is FALSE:
                    return a0, True
                a1, al = self.branch(c, s2, lambda z: run_ifs(z, ifs[1:]), lambda z: ([], True))
                return a0 + a1, al

            a2, alive = self.for_seq(seq, s, body)
            return ab + a2, alive

        abr, alive = run_gen(0, st)
        for a in abr:
            if a.kind == 'raise':
                st.pending.append((a.cond, a.value, a.state))
        for k in [k for k in st.vars if k[0] == cf]:
            del st.vars[k]
        return acc

    # ------------------------------------------------------------------------------------------
    # subscripts and attributes
    # ------------------------------------------------------------------------------------------

    def ev_index(self, node, st, fr):
        return self.ev(node, st, fr)

    def ev_Slice(self, node, st, fr):
        lo = self.ev(node.lower, st, fr) if node.lower is not None else NONE
        hi = self.ev(node.upper, st, fr) if node.upper is not None else NONE
        step = self.ev(node.step, st, fr) if node.step is not None else NONE
        return raw('slicekey', self.peek(lo, st), self.peek(hi, st), self.peek(step, st))

    def ev_Subscript(self, node, st, fr):
        o = self.ev(node.value, st, fr)
        k = self.ev(node.slice, st, fr)
        return self.get_item(o, k, st, node)

    def get_item(self, o, k, st, node):
        if o.op == 'ite' and any(x.op in ('ref', 'tuple', 'obj') for x in o.args[1:]):
            c = self.simp(o.args[0], st)
            if c in (TRUE, FALSE):
                return self.get_item(o.args[1 if c is TRUE else 2], k, st, node)
            if not self.try_kinds:
                return mk_ite(c, self.get_item(o.args[1], k, st, node), self.get_item(o.args[2], k, st, node))
            return self.cond_values(c, st, lambda s: self.get_item(o.args[1], k, s, node), lambda s: self.get_item(o.args[2], k, s, node))
        if o.op == 'ref':
            r = st.heap[o.args[0]]
            if r.kind == 'obj':
                ci = self.classes.get(r.cls)
                m = self.class_lookup(ci, '__getitem__') if ci else None
                if m is not None:
                    return self.call(raw('bound', m, o), [k], {}, st, node)
                if ci is not None and ci.fields is not None and is_int(k):
                    return r.content[ci.fields[cval(k)][0]]
        if o.op == 'sym' and o.args[1] in self.classes and k.op != 'slicekey':
            m = self.class_lookup(self.classes[o.args[1]], '__getitem__')
            if m is not None:
                return self.call(raw('bound', m, o), [k], {}, st, node)
        if o.op == 'class' and self.classes[o.args[0]].is_enum:
            ci = self.classes[o.args[0]]
            if is_str(k):
                for m in ci.members:
                    if m.args[1] == cval(k):
                        return m
            return raw('enumbyname', o.args[0], k)
        ov = self.peek(o, st)
        if ov.op in ('class', 'lib'):
            return ov      # typing subscripts
        if k.op == 'slicekey':
            lo, hi, step = k.args
            if ov.op == 'list' and lo is NONE and hi is NONE and step is const(-1):
                return self.alloc('list', mk_spread(self.bi_reversed([o], {}, st, node)), st)
            if ov.op == 'list':
                lo, hi = self.lv_bound(ov, lo), self.lv_bound(ov, hi)
                r = mk_slice(ov, lo, hi, step)
                if r.op == 'list':
                    return self.alloc('list', r.args[0], st)
                return r
            if step is NONE:
                lo, hi = self.from_end(ov, lo, st), self.from_end(ov, hi, st)
            return mk_slice(ov, lo, hi, step)
        kv = self.peek(k, st)
        if ov.op == 'list' and ov.args[0].op in ('cat', 'lvseq'):
            r = self.lv_item(ov.args[0], kv)
            if r is not None:
                return r
        if ov.op == 'match' or ov.op == 'item' and ov.args[0].op == 'refinditer' or ov.op == 'marg':
            return raw('mgroup', 'group', ov, kv)
        # possible failure
        if ov.op == 'dict' or (not is_int(kv) and ov.op not in ('list', 'tuple', 'slice', 'zip', 'range', 'const')):
            if self.catches('KeyError'):
                self.may_raise(mk_not(self.contains(kv, ov, st, node)), 'KeyError', st, node)
        elif is_int(kv) and ov.op not in ('tuple', 'dict'):
            if self.catches('IndexError'):
                n = cval(kv)
                need = n + 1 if n >= 0 else -n
                self.may_raise(mk_lt(mk_len(ov), const(need)), 'IndexError', st, node)
        if ov.op == 'dict':
            if o.op == 'ref' and o.args[0] in self.dd_factory:
                fac = self.dd_factory[o.args[0]]
                if fac in (raw('lib', 'builtins.list'), raw('lib', 'builtins.set'), raw('lib', 'builtins.dict')):
                    return raw('mmslot', o, (kv,), fac.args[0].split('.')[1])
            res = self.dict_item(ov, kv, st)
            if o.op == 'ref' and res.op in ('item', 'list', 'set', 'dict', 'sumof'):
                self.origin[res] = (o, (kv,))
            return res
        res = mk_item(ov, kv)
        if o in self.origin and res.op in ('item', 'list', 'set', 'dict', 'sumof'):
            ref, path = self.origin[o]
            self.origin[res] = (ref, path + (kv,))
        return res

    def path_update(self, ref, path, kind, vals, st, node):
        """Update of a nested container: ref[path] is extended / incremented."""
        r = st.heap[ref.args[0]]
        key = path[0] if len(path) == 1 else raw('path', *path)
        content = drop_fresh_slot(r.content, path, kind, lambda x: self.peek(x, st))
        for v in vals:
            content = mk_cat(content, v if v.op in tm.SEQ_OPS else one(raw(kind, key, v)))
        self.write_rec(ref, st, content, node, kind)

    def slot_of(self, o, st):
        if o.op == 'mmslot':
            return o.args[0], o.args[1]
        if o in self.origin:
            ref, path = self.origin[o]
            if ref.args[0] in st.heap and st.heap[ref.args[0]].kind == 'dict':
                return ref, path
        return None

    def view_slot(self, v, st):
        """The dictionary slot of a value met while going through the items (or values) of a dictionary."""
        if v.op == 'item' and v.args[1] is const(1) and v.args[0].op == 'item' and v.args[0].args[0].op == 'items':
            view, key = v.args[0].args[0], mk_item(v.args[0], const(0))
        elif v.op == 'item' and v.args[0].op == 'values':
            view, key = v.args[0], mk_item(mk_item(raw('items', v.args[0].args[0]), v.args[1]), const(0))
        else:
            return None
        ref = self.views.get(view)
        if ref is None or ref.args[0] not in st.heap or st.heap[ref.args[0]].kind != 'dict':
            return None
        return ref, (key,)

    def slot_rewrite(self, slot, cur, meth, args, kwargs, st, node):
        """d[k] changed in place: d[k] is set to the changed list."""
        ref, path = slot
        if len(path) != 1 or meth not in ('sort', 'reverse', 'append', 'extend', 'insert', 'remove') \
                or cur.op == 'mmslot':
            return False
        tmp = self.alloc('list', tm.mk_spread(cur), st)
        self.list_method(tmp, st.heap[tmp.args[0]], meth, args, kwargs, st, node)
        self.set_item(ref, path[0], self.freeze(tmp, st), st, node)
        return True

    def slot_mutation(self, slot, meth, args, st, node):
        ref, path = slot
        key = path[0] if len(path) == 1 else raw('path', *path)
        if meth in ('append', 'add'):
            self.path_update(ref, path, 'app' if meth == 'append' else 'appset', [args[0]], st, node)
            return True
        if meth in ('extend', 'update'):
            seq = tm.over_seq(self.iter_seq(args[0], st, node),
                              lambda x: one(raw('app' if meth == 'extend' else 'appset', key, x)))
            if seq is not None:
                self.path_update(ref, path, 'app', [seq], st, node)
                return True
        return False

    def first_value(self, v, st):
        """Update kind, extra path and value of a container holding a single first item."""
        pv = self.peek(v, st)
        if pv.op in ('list', 'set'):
            f = tm.flat_ones(pv.args[0])
            if f is not None and len(f) == 1:
                return 'app' if pv.op == 'list' else 'appset', (), f[0]
        if pv.op == 'dict':
            f = tm.flat_ones(pv.args[0])
            if f is not None and len(f) == 1:
                if f[0].op == 'tuple':
                    r = self.first_value(f[0].args[1], st)
                    if r is not None:
                        return r[0], (f[0].args[0],) + r[1], r[2]
                elif f[0].op in ('app', 'appset'):
                    k = f[0].args[0]
                    return f[0].op, k.args if k.op == 'path' else (k,), f[0].args[1]
        return None

    def slot_put(self, ref, path, kv, v, container, st, node):
        """container[kv] = v where container = ref[path]; True when modelled as an update."""
        full = path + (kv,)
        absent = mk_not(self.contains(kv, container, st, node))
        pv = self.peek(v, st)
        item = mk_item(self.peek(container, st), kv)
        if pv.op in ('lin', 'add') or is_num(pv):
            d = None
            if pv.op == 'lin':
                c, parts = tm.lin_parts(pv)
                # d[k] + n, d.get(k, 0) + n
                items = (item, mk_ite(absent, const(0), item))
                if [k for t, k in parts if t in items] == [1]:
                    d = mk_lin(c, [(t, k) for t, k in parts if t not in items])
            elif pv.op == 'add' and pv.args[0] is item and len(pv.args) == 2:
                d = pv.args[1]
            if d is not None and not tm.mentions(d, item):
                self.path_update(ref, full, 'inc', [d], st, node)
                return True
        if not path and absent is TRUE:
            return False
        if pv.op == 'ite' and pv.args[0] in (absent, mk_not(absent)):
            new, old = (pv.args[1], pv.args[2]) if pv.args[0] is absent else (pv.args[2], pv.args[1])
            d = lin_sub(old, item)
            if d is new:
                self.path_update(ref, full, 'inc', [d], st, node)
                return True
        if absent is TRUE or absent in st.facts:
            fv = self.first_value(v, st)
            if fv is not None:
                kind, more, x = fv
                self.path_update(ref, full + tuple(more), kind, [x], st, node)
                return True
            if is_num(pv):
                self.path_update(ref, full, 'inc', [pv], st, node)
                return True
        return False

    def dict_item(self, d, k, st):
        ps = tm.flat_ones(d.args[0])
        if ps is not None and is_lit(k) and all(p.op == 'tuple' and is_lit(p.args[0]) for p in ps):
            for p in reversed(ps):
                if mk_eq(p.args[0], k) is TRUE:
                    return p.args[1]
            return top('missing key %s' % tm.show(k))
        # the last put is the one we look for
        parts = tm.cat_parts(d.args[0])
        if parts and parts[-1].op == 'one' and parts[-1].args[0].op == 'tuple' and parts[-1].args[0].args[0] is k:
            return parts[-1].args[0].args[1]
        if ps is not None and ps and all(p.op == 'tuple' and is_lit(p.args[0]) for p in ps) and not is_lit(k):
            # table lookup with a symbolic key: gate on the key
            seen = {}
            for p in ps:
                seen[p.args[0]] = p.args[1]
            res = raw('item', d, k)
            if len(seen) <= 40:
                acc = None
                for kk, vv in seen.items():
                    acc = vv if acc is None else mk_ite(mk_eq(k, kk), vv, acc)
                # outside the table the access fails: keep the first entry as don't-care
                return acc
            return res
        f = tm.guarded_ones(d.args[0])
        if f and len(f) <= 3 and not is_lit(k) and all(p.op == 'tuple' and len(p.args) == 2 for _, p in f) and \
                any(p.args[1].op == 'ref' for _, p in f):
            acc = None
            for g, p in f:
                acc = p.args[1] if acc is None else mk_ite(mk_and(g, mk_eq(p.args[0], k)), p.args[1], acc)
            return acc
        return mk_item(d, k)

    def from_end(self, s, k, st):
        """s[len(s) - n] as a bound is s[-n] when s has n characters"""
        if k.op == 'lin' and isinstance(k.args[0], int) and k.args[0] < 0 and k.args[1] == ((raw('len', s), 1),):
            for f in st.facts:
                if f.op in ('endswith', 'startswith') and f.args[0] is s and is_str(f.args[1]) and \
                        len(cval(f.args[1])) >= -k.args[0]:
                    return const(k.args[0])
        return k

    def lv_bound(self, ov, b):
        return b

    def lv_item(self, seq, k):
        """Item of a list that is being accumulated by the enclosing loop."""
        parts = tm.cat_parts(seq)
        if not parts or parts[0].op != 'lvseq':
            return None
        n = self.lvlen.get(parts[0])
        if n is None:
            return None
        off = lin_sub(k, n)
        if is_int(off) and 0 <= cval(off) < len(parts) - 1:
            ps = parts[1:]
            if all(p.op == 'one' for p in ps[:cval(off) + 1]):
                return ps[cval(off)].args[0]
        return None

    def length(self, v, st, node):
        if v.op == 'ref':
            r = st.heap[v.args[0]]
            if r.kind == 'obj':
                ci = self.classes.get(r.cls)
                m = self.class_lookup(ci, '__len__') if ci else None
                if m is not None:
                    return self.call(raw('bound', m, v), [], {}, st, node)
        if v.op == 'sym' and v.args[1] in self.classes:
            m = self.class_lookup(self.classes[v.args[1]], '__len__')
            if m is not None:
                return self.call(raw('bound', m, v), [], {}, st, node)
        pv = self.peek(v, st)
        if pv.op == 'list':
            parts = tm.cat_parts(pv.args[0])
            if parts and parts[0].op == 'lvseq' and parts[0] in self.lvlen:
                return lin_add(self.lvlen[parts[0]], tm.seq_len(mk_cat(*parts[1:])))
        if pv.op == 'class' and self.classes[pv.args[0]].is_enum:
            return const(len(self.classes[pv.args[0]].members))
        return mk_len(pv)

    def ev_Attribute(self, node, st, fr):
        o = self.ev(node.value, st, fr)
        name = node.attr
        cls = self.cur_class(fr)
        if cls is not None:
            name = mangle(name, cls)
        return self.get_attr(o, name, st, node)

    def class_lookup(self, ci, name):
        seen = set()
        stack = [ci]
        while stack:
            c = stack.pop(0)
            if c is None or c.qual in seen:
                continue
            seen.add(c.qual)
            if name in c.ns:
                return c.ns[name]
            for b in c.bases:
                if b.op == 'class':
                    stack.append(self.classes[b.args[0]])
        return None

    def class_prop(self, ci, name):
        c = ci
        seen = set()
        stack = [ci]
        while stack:
            c = stack.pop(0)
            if c.qual in seen:
                continue
            seen.add(c.qual)
            if name in c.props:
                return c.props[name]
            if name in c.ns:
                return None
            for b in c.bases:
                if b.op == 'class':
                    stack.append(self.classes[b.args[0]])
        return None

    def class_setter(self, ci, name):
        stack = [ci]
        while stack:
            c = stack.pop(0)
            if name in c.setters:
                return c.setters[name]
            for b in c.bases:
                if b.op == 'class':
                    stack.append(self.classes[b.args[0]])
        return None

    def lib_bases(self, ci):
        out = []
        stack = [ci]
        while stack:
            c = stack.pop(0)
            for b in c.bases:
                if b.op == 'class':
                    stack.append(self.classes[b.args[0]])
                elif b.op == 'lib':
                    out.append(b.args[0])
        return out

    def class_of(self, o, st):
        if o.op == 'ref':
            r = st.heap[o.args[0]]
            return self.classes.get(r.cls) if r.kind == 'obj' else None
        if o.op == 'obj':
            return self.classes.get(o.args[0])
        if o.op == 'sym' and o.args[1]:
            return self.classes.get(o.args[1])
        return None

    def member(self, ci, o, name, st, node):
        """Class-level member seen from an instance."""
        p = self.class_prop(ci, name)
        if p is not None:
            return self.call(raw('bound', p, o), [], {}, st, node)
        v = self.class_lookup(ci, name)
        if v is None:
            return None
        if v.op == 'func':
            f = self.funcs[v.args[0]]
            n = f.qual.split('.')[-1]
            dc = f.cls
            key = mangle(n, dc)
            if dc is not None and key in dc.statics:
                return v
            if dc is not None and key in dc.classmethods:
                return raw('bound', v, raw('class', ci.qual))
            return raw('bound', v, o)
        return v

    def get_attr(self, o, name, st, node):
        op = o.op
        if op == 'ite':
            a = self.get_attr(o.args[1], name, st, node) if o.args[1] is not NONE else None
            b = self.get_attr(o.args[2], name, st, node) if o.args[2] is not NONE else None
            if a is None and b is None:
                return top('attribute of None')
            if a is None:
                return b
            if b is None:
                return a
            return mk_ite(o.args[0], a, b)
        if op == 'ref':
            r = st.heap[o.args[0]]
            if r.kind == 'obj':
                if name in r.content:
                    v = r.content[name]
                    self.race_check(o, name, v, st, node)
                    return v
                ci = self.classes.get(r.cls)
                if ci is not None:
                    v = self.member(ci, o, name, st, node)
                    if v is not None:
                        return v
                if name == '__class__':
                    return raw('class', r.cls)
                return raw('method', o, name)
            return raw('method', o, name)
        if op == 'obj':
            ov = self.over_read(o, name, st)
            if ov is not None:
                return ov
            for k, v in o.args[1]:
                if k == name:
                    self.race_check(o, name, v, st, node)
                    return v
            ci = self.classes.get(o.args[0])
            if ci is not None:
                v = self.member(ci, o, name, st, node)
                if v is not None:
                    return v
            return raw('method', o, name)
        if op == 'module':
            m = o.args[0] + '.' + name
            if o.args[0].split('.')[0] == self.package:
                return self.module_attr(o.args[0], name, st)
            return raw('lib', m)
        if op == 'lib':
            return raw('lib', o.args[0] + '.' + name)
        if op == 'class':
            ci = self.classes[o.args[0]]
            v = self.class_lookup(ci, name)
            if v is not None:
                if v.op == 'func' and name in ci.classmethods:
                    return raw('bound', v, o)
                return v
            if name == '__name__':
                return const(ci.name)
            if name == '__members__' and ci.is_enum:
                return raw('dict', mk_cat(*[one(raw('tuple', const(m.args[1]), m)) for m in ci.members]))
            for b in self.lib_bases(ci):
                return raw('lib', b + '.' + name)
            return raw('method', o, name)
        if op == 'super':
            cls, me = o.args
            ci = self.classes[cls]
            for b in ci.bases:
                if b.op == 'class':
                    v = self.member(self.classes[b.args[0]], me, name, st, node)
                    if v is not None:
                        return v
                elif b.op == 'lib':
                    return raw('libsuper', b.args[0], name, me)
            return raw('libsuper', 'object', name, me)
        if op == 'enum':
            if name == 'value':
                return const(o.args[2]) if not isinstance(o.args[2], T) else o.args[2]
            if name == 'name':
                return const(o.args[1])
            ci = self.classes[o.args[0]]
            v = self.member(ci, o, name, st, node)
            if v is not None:
                return v
            return raw('method', o, name)
        if op == 'enumof' and name == 'value':
            return o.args[1]
        if op in ('const', 'strcat', 'join', 'list', 'tuple', 'dict', 'set', 'regex', 'func', 'bound', 'resub', 'strm',
                  'file', 'match'):
            if op == 'func' and name in ('__name__', '__qualname__'):
                return const(o.args[0].split('.')[-1])
            return raw('method', o, name)
        # opaque value
        ov = self.over_read(o, name, st)
        if ov is not None:
            return ov
        ci = self.class_of(o, st)
        if ci is not None:
            v = self.member(ci, o, name, st, node)
            if v is not None:
                return v
            return self.opaque_attr(o, name, st)
        owner = self.unique_member(name, st) if not self.external(o) else None
        if owner is not None:
            v = self.member(owner, o, name, st, node)
            if v is not None:
                return v
        return self.opaque_attr(o, name, st)

    def opaque_attr(self, o, name, st):
        ver = st.vers.get(name)
        while ver is not None and ver.op == 'midloop':
            own = self.ownver.get((ver.args[0], name))
            if own is None or own[0] is not o:
                break
            ver = own[1]
        if ver is None:
            return raw('attr', o, name)
        return raw('attr', o, name, ver)

    def over_read(self, o, name, st):
        v = st.over.get((o, name))
        if v is not None:
            return v
        for attr, pat, lids, src, val in reversed(st.univ):
            if attr != name:
                continue
            ls = lids if isinstance(lids, tuple) else (lids,)
            m = match_idx(pat, o, set(ls))
            if m is not None:
                return subst(val, {idx(k): v for k, v in m.items()})
        return None

    def external(self, o):
        """Value of a library, or a parameter that a driver declares as foreign."""
        while True:
            if o.op in ('attr', 'item', 'method'):
                o = o.args[0]
            elif o.op == 'call':
                o = o.args[0]
            else:
                break
        return o.op in ('libcall', 'lib', 'libsuper', 'modfile', 'path', 'file') or \
            o.op == 'sym' and o.args[1] == 'ext'

    def unique_member(self, name, st):
        """The only class of the package that defines property/method `name` (and no attribute)."""
        if self.uniq_attrs is None:
            self.index_members()
        owners = self.uniq_attrs.get(name)
        if owners is not None and len(owners) == 1:
            q = next(iter(owners))
            ci = self.classes.get(q)
            if ci is None:
                self.load_module(q.rsplit('.', 1)[0], st)
                ci = self.classes.get(q)
            return ci
        return None

    def index_members(self):
        from .loader import all_modules
        idxm = {}
        attrs = {}
        for root in self.loader.roots[:1]:
            for mn in all_modules(root, self.package):
                mod = self.loader.find(mn)
                for c in mod.tree.body:
                    if not isinstance(c, ast.ClassDef):
                        continue
                    q = mn + '.' + c.name
                    for f in c.body:
                        if isinstance(f, ast.FunctionDef) and not f.name.startswith('__'):
                            idxm.setdefault(f.name, set()).add(q)
                        if isinstance(f, ast.FunctionDef):
                            for n in ast.walk(f):
                                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                                        isinstance(n.value, ast.Name) and n.value.id == 'self':
                                    attrs.setdefault(n.attr, set()).add(q)
        out = {}
        for n, qs in idxm.items():
            if n in STR_METHODS or n in MUTATORS or n in DICT_METHODS:
                continue
            others = attrs.get(n, set()) - qs
            if others:
                continue
            out[n] = qs
        self.uniq_attrs = out

    def set_attr(self, o, name, v, st, node):
        if o.op == 'ite':
            c = o.args[0]
            s1, s2 = st.copy(), st.copy()
            self.set_attr(o.args[1], name, v, s1, node)
            self.set_attr(o.args[2], name, v, s2, node)
            pend = st.pending
            pc, facts = st.pc, st.facts
            st.become(self.merge(c, s1, s2))
            st.pc, st.facts, st.pending = pc, facts, pend
            return
        ci = self.class_of(o, st)
        if ci is not None:
            setter = self.class_setter(ci, name)
            if setter is not None:
                self.call(raw('bound', setter, o), [v], {}, st, node)
                return
        if o.op == 'ref' and st.heap[o.args[0]].kind == 'obj':
            r = st.heap[o.args[0]]
            d = dict(r.content)
            d[name] = v
            self.write_rec(o, st, d, node, name)
            return
        if o.op == 'class':
            self.emit('sharedwrite', (const('class attribute'), o, v), st, node, extra=(-1, name, o.args[0]))
            self.classes[o.args[0]].ns[name] = v
            return
        self.emit('setattr', (o, const(name), v), st, node)
        fv = v
        for k in list(st.over):
            if k[1] == name and k[0] is not o:
                st.over[k] = mk_ite(mk_eq(k[0], o), fv, st.over[k])
        st.over[(o, name)] = fv
        st.vers[name] = raw('ver', st.vers.get(name, NONE), one(raw('tuple', o, self.freeze(fv, st))))

    def opaque_mutation(self, cur, meth, args, st, node):
        """In-place mutation of a container the analysis did not allocate."""
        slot = self.slot_of(cur, st)
        if slot is not None and self.slot_mutation(slot, meth, args, st, node):
            return
        args = [self.freeze(a, st) for a in args]
        if meth == 'append':
            meth, args = 'extend', [raw('list', one(args[0]))]
        elif meth == 'extend':
            args = [raw('list', self.freeze(self.iter_seq(args[0], st, node), st))]
        elif meth in ('add', 'update') and len(args) == 1:
            args = [raw('list', one(args[0]))] if meth == 'add' else \
                [raw('list', self.freeze(self.iter_seq(args[0], st, node), st))]
            meth = 'update'
        if cur.op == 'attr':
            obj, name = cur.args[0], cur.args[1]
            self.emit('mutate', (obj, const(name), const(meth)) + tuple(args), st, node)
            st.vers[name] = raw('ver', st.vers.get(name, NONE), one(raw('tuple', obj, const(meth), *args)))
            return
        self.emit('mutate', (cur, const(''), const(meth)) + tuple(args), st, node)

    def assign(self, target, v, st, fr):
        if isinstance(target, ast.Name):
            name = target.id
            cls = self.cur_class(fr)
            if cls is not None:
                name = mangle(name, cls)
            self.set_var(name, v, st, fr)
        elif isinstance(target, (ast.Tuple, ast.List)):
            self.unpack(target.elts, v, st, fr, target)
        elif isinstance(target, ast.Attribute):
            o = self.ev(target.value, st, fr)
            self.set_attr(o, mangle(target.attr, self.cur_class(fr)), v, st, target)
        elif isinstance(target, ast.Subscript):
            o = self.ev(target.value, st, fr)
            k = self.ev(target.slice, st, fr)
            self.set_item(o, k, v, st, target)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, v, st, fr)
        else:
            self.note('unsupported assignment target', target)

    def unpack(self, elts, v, st, fr, node):
        pv = self.peek(v, st)
        if pv.op == 'obj' or v.op == 'ref':
            pv2 = raw('list', self.iter_seq(v, st, node)) if v.op == 'ref' and st.heap[v.args[0]].kind == 'obj' else pv
            pv = pv2
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if self.catches('ValueError') and pv.op not in ('tuple',) and not star:
            self.may_raise(mk_not(mk_eq(mk_len(pv), const(len(elts)))), 'ValueError', st, node)
        if star:
            k = star[0]
            n_after = len(elts) - k - 1
            for i in range(k):
                self.assign(elts[i], mk_item(pv, const(i)), st, fr)
            sl = mk_slice(pv, const(k) if k else NONE, const(-n_after) if n_after else NONE, NONE)
            self.assign(elts[k].value, self.alloc('list', mk_spread(sl), st), st, fr)
            for i in range(n_after):
                self.assign(elts[k + 1 + i], mk_item(pv, const(i - n_after)), st, fr)
            return
        for i, e in enumerate(elts):
            self.assign(e, self.pick(pv, i), st, fr)

    def pick(self, pv, i):
        if pv.op == 'ite':
            a, b = pv.args[1], pv.args[2]
            if a is NONE:
                return self.pick(b, i)
            if b is NONE:
                return self.pick(a, i)
            return mk_ite(pv.args[0], self.pick(a, i), self.pick(b, i))
        return mk_item(pv, const(i))

    def set_item(self, o, k, v, st, node):
        if o.op == 'ite':
            c = o.args[0]
            s1, s2 = st.copy(), st.copy()
            self.set_item(o.args[1], k, v, s1, node)
            self.set_item(o.args[2], k, v, s2, node)
            pc, facts, pend = st.pc, st.facts, st.pending
            st.become(self.merge(c, s1, s2))
            st.pc, st.facts, st.pending = pc, facts, pend
            return
        if o.op == 'ref':
            r = st.heap[o.args[0]]
            kv = self.peek(k, st)
            if r.kind == 'dict':
                if self.slot_put(o, (), kv, v, o, st, node):
                    return
                parts = tm.cat_parts(r.content)
                content = mk_cat(r.content, one(raw('tuple', kv, v)))
                if parts and is_lit(kv) and all(p.op == 'one' and p.args[0].op == 'tuple' and is_lit(p.args[0].args[0])
                                                for p in parts):
                    content = mk_cat(*([p for p in parts if mk_eq(p.args[0].args[0], kv) is not TRUE] +
                                       [one(raw('tuple', kv, v))]))
                self.write_rec(o, st, content, node, '[]=')
                return
            if r.kind == 'arr':
                self.write_rec(o, st, mk_cat(r.content, one(raw('tuple', kv, v))), node, '[]=')
                return
            if r.kind in ('list', 'deque'):
                parts = tm.cat_parts(r.content)
                if is_int(kv) and all(p.op == 'one' for p in parts) and -len(parts) <= cval(kv) < len(parts):
                    parts[cval(kv)] = one(v)
                    self.write_rec(o, st, mk_cat(*parts), node, '[]=')
                else:
                    self.write_rec(o, st, raw('spread', raw('setitem', raw('list', r.content), kv, v)), node, '[]=')
                return
            ci = self.classes.get(r.cls)
            m = self.class_lookup(ci, '__setitem__') if ci else None
            if m is not None:
                self.call(raw('bound', m, o), [k, v], {}, st, node)
                return
        slot = self.slot_of(o, st)
        if slot is not None:
            kv = self.peek(k, st)
            if self.slot_put(slot[0], slot[1], kv, v, o, st, node):
                return
            r = st.heap[slot[0].args[0]]
            self.write_rec(slot[0], st, mk_cat(r.content, one(raw('put', raw('path', *(slot[1] + (kv,))), v))), node,
                           '[]=')
            return
        self.opaque_mutation(o, '[]=', [k, v], st, node)

    def ev_Await(self, node, st, fr):
        return self.note('await', node)

    def ev_Yield(self, node, st, fr):
        v = self.ev(node.value, st, fr) if node.value is not None else NONE
        acc = self.lookup('$yield', st, fr)
        r = st.heap[acc.args[0]]
        st.heap[acc.args[0]] = r.with_content(mk_cat(r.content, one(v)))
        return NONE

    def ev_YieldFrom(self, node, st, fr):
        v = self.ev(node.value, st, fr)
        acc = self.lookup('$yield', st, fr)
        r = st.heap[acc.args[0]]
        st.heap[acc.args[0]] = r.with_content(mk_cat(r.content, self.iter_seq(v, st, node)))
        return NONE

    # ------------------------------------------------------------------------------------------
    # calls
    # ------------------------------------------------------------------------------------------

    def ev_Call(self, node, st, fr):
        self.stats['calls'] += 1
        if isinstance(node.func, ast.Name) and node.func.id == 'super' and not node.args:
            f = fr
            fi = self.frame_func[f]
            while getattr(fi, 'is_comp', False):
                f = self.frame_parent[f]
                fi = self.frame_func[f]
            me = self.lookup(fi.params[0], st, f)
            return raw('super', fi.cls.qual, me)
        f = self.ev(node.func, st, fr)
        args = []
        for a in node.args:
            if isinstance(a, ast.Starred):
                s = self.iter_seq(self.ev(a.value, st, fr), st, node)
                flat = tm.flat_ones(s)
                if flat is not None:
                    args.extend(flat)
                else:
                    args.append(raw('starseq', s))
            else:
                v = self.ev(a, st, fr)
                args.append(self.once(a, v, st) if f.op in ('func', 'bound', 'class') else v)
        kwargs = {}
        for k in node.keywords:
            if k.arg is None:
                d = self.peek(self.ev(k.value, st, fr), st)
                if d.op == 'dict':
                    fl = tm.flat_ones(d.args[0])
                    if fl is not None and all(is_str(p.args[0]) for p in fl):
                        for p in fl:
                            kwargs[cval(p.args[0])] = p.args[1]
                        continue
                self.note('** arguments', node)
            else:
                v = self.ev(k.value, st, fr)
                kwargs[k.arg] = self.once(k.value, v, st) if f.op in ('func', 'bound', 'class') else v
        return self.call(f, args, kwargs, st, node)

    def call(self, f, args, kwargs, st, node):
        op = f.op
        if op == 'ite':
            return self.cond_values(f.args[0], st, lambda s: self.call(f.args[1], args, kwargs, s, node),
                                    lambda s: self.call(f.args[2], args, kwargs, s, node))
        if op == 'func':
            return self.call_func(f, self.funcs[f.args[0]], args, kwargs, st, node)
        if op == 'bound':
            return self.call(f.args[0], [f.args[1]] + args, kwargs, st, node)
        if op == 'class':
            return self.instantiate(f.args[0], args, kwargs, st, node)
        if op == 'lib':
            return self.call_lib(f.args[0], args, kwargs, st, node)
        if op == 'libsuper':
            return self.call_libsuper(f, args, kwargs, st, node)
        if op == 'method':
            return self.call_method(f.args[0], f.args[1], args, kwargs, st, node)
        if op == 'partial':
            return self.call(f.args[0], list(f.args[1]) + args, kwargs, st, node)
        if op == 'getter':
            o = args[0]
            vals = [self.get_item(o, k, st, node) if f.args[0] == 'item' else self.get_attr(o, cval(k), st, node)
                    for k in f.args[1]]
            return vals[0] if len(vals) == 1 else raw('tuple', *vals)
        if op == 'ref' and st.heap[f.args[0]].kind == 'obj' or op == 'obj' or (op == 'sym' and f.args[1]):
            ci = self.class_of(f, st)
            if ci is not None:
                m = self.class_lookup(ci, '__call__')
                if m is not None:
                    return self.call(raw('bound', m, f), args, kwargs, st, node)
        if op == 'attr':
            # method of an opaque receiver
            return self.call_method(f.args[0], f.args[1], args, kwargs, st, node)
        return self.opaque_call(f, args, kwargs, st, node)

    def opaque_call(self, f, args, kwargs, st, node):
        fargs = tuple(self.freeze(a, st) for a in args)
        kw = tuple(sorted((k, self.freeze(v, st)) for k, v in kwargs.items()))
        if f.op == 'attr' and f.args[1] == 'joinpath' and not kw:
            t = self.freeze(f.args[0], st)
            for a in fargs:
                t = raw('path', t, a)
            return t
        t = raw('call', self.freeze(f, st), fargs, kw) if kw else raw('call', self.freeze(f, st), fargs)
        self.emit('call', (t,), st, node)
        if f.op == 'sym' and f.args[0] in self.opts.get('fallible', ()):
            # the client's function may raise any exception
            c = raw('fails', t)
            st.pending.append((c, raw('exc', const('$any'), t), st.copy()))
            st.assume(mk_not(c))
        if f.op == 'sym' and f.args[0] == 'mark' and 'history' in self.opts:
            # a new operation starts: its inputs are other objects than those of the operations before
            first = lambda x: any(y.op == 'sym' and y.args[0].endswith('_1') for y in subterms(x))
            st.over = {k: v for k, v in st.over.items() if not first(k[0])}
            st.univ = [u for u in st.univ if not any(isinstance(x, T) and first(x) for x in u)]
            st.vers = {k: v for k, v in st.vers.items() if not first(v)}
        h = self.opts.get('opaque_result')
        if h is not None:
            r = h(self, t, st)
            if r is not None:
                return r
        return t

    def bind(self, fi, args, kwargs, st, node):
        """Parameter -> value; None when the call does not fit the signature."""
        env = {}
        pos = list(args)
        params = list(fi.params)
        i = 0
        star = None
        for p in params:
            if pos and pos[0].op == 'starseq':
                star = (pos[0].args[0], i)
                rest = pos[1:]
                # remaining positional parameters come from the starred sequence
                sl = raw('list', star[0])
                j = 0
                for q in params[i:]:
                    if q in kwargs:
                        break
                    env[q] = mk_item(sl, const(j))
                    j += 1
                if fi.vararg:
                    s = mk_slice(sl, const(j) if j else NONE, NONE, NONE)
                    env[fi.vararg] = self.alloc('list', mk_cat(mk_spread(s), *[one(a) for a in rest]), st)
                pos = []
                break
            if pos:
                env[p] = pos.pop(0)
                i += 1
            else:
                break
        if fi.vararg and fi.vararg not in env:
            seq = mk_cat(*[a.args[0] if a.op == 'starseq' else one(a) for a in pos])
            fl = tm.flat_ones(seq)
            env[fi.vararg] = raw('tuple', *fl) if fl is not None else raw('list', seq)
            pos = []
        if pos:
            return None
        extra = {}
        for k, v in kwargs.items():
            if k in params or k in fi.kwonly:
                env[k] = v
            else:
                extra[k] = v
        if fi.kwarg:
            env[fi.kwarg] = self.alloc('dict', mk_cat(*[one(raw('tuple', const(k), v)) for k, v in extra.items()]), st)
        elif extra:
            return None
        nd = len(fi.defaults)
        for k, d in zip(params[len(params) - nd:], fi.defaults):
            env.setdefault(k, d)
        for k, d in zip(fi.kwonly, fi.kw_defaults):
            if d is not None:
                env.setdefault(k, d)
        for p in params + fi.kwonly:
            if p not in env:
                return None
        return env

    def call_func(self, fterm, fi, args, kwargs, st, node):
        cut = self.cuts.get(fi.qual)
        if cut is not None:
            r = cut(self, fterm, args, kwargs, st, node)
            if r is not None:
                return r
        self.stats['functions'].add(fi.qual)
        env = self.bind(fi, args, kwargs, st, node)
        if env is None:
            return self.note('call of %s does not match its signature' % fi.qual, node)
        key = fi.node
        if self.is_recursive(fi) and not any(r['node'] is key for r in self.rec_ctx) and self.known_args(fi, env, st) and \
                sum(s.node is key for s in self.stack) < 6:
            # the calls on objects of a known structure are followed one by one
            return self.inline(fi, env, st, node)
        if any(s.node is key for s in self.stack):
            return self.recursive_call(fi, env, st, node)
        if self.is_recursive(fi) and not any(r['node'] is key for r in self.rec_ctx):
            return self.fix_call(fi, env, st, node)
        if len(self.stack) > 60:
            return self.note('call depth', node)
        return self.inline(fi, env, st, node)

    def inline(self, fi, env, st, node):
        fr = next(self.frames)
        self.frame_birth[fr] = next(self.locs)
        self.frame_parent[fr] = fi.frame
        self.frame_module[fr] = fi.module
        self.frame_func[fr] = fi
        for k, v in env.items():
            st.vars[(fr, k)] = v
        self.stack.append(fi)
        facts0, pc0 = st.facts, st.pc
        old_pending = st.pending
        st.pending = []
        try:
            if fi.is_lambda:
                res = self.ev(fi.node.body, st, fr)
                st.pending = old_pending + st.pending
                return res
            if fi.is_gen:
                acc = self.alloc('list', EMPTY, st)
                st.vars[(fr, '$yield')] = acc
            abr, alive = self.exec_block(fi.node.body, st, fr)
        finally:
            self.stack.pop()
        res, state, raises = self.fold_outcomes(abr, alive, st)
        if state is None:
            # every path raises
            st.pending = old_pending + raises
            st.facts, st.pc = facts0, pc0
            return top('call never returns')
        st.become(state)
        st.pc = pc0
        if raises:
            st.facts = facts0 | frozenset(x for c, _, _ in raises for x in tm.conj_parts(mk_not(c)))
            st.pc = mk_and(pc0, *[mk_not(c) for c, _, _ in raises])
            self.pc_after_raises(st, raises)
        else:
            st.facts = facts0
        st.pending = old_pending + raises
        for k in [k for k in st.vars if k[0] == fr]:
            if not self.captured(fr):
                del st.vars[k]
        if fi.is_gen:
            return self.alloc('iter', st.heap[acc.args[0]].content, st)
        return res

    def pc_after_raises(self, st, raises):
        pass

    def captured(self, fr):
        return True

    def fold_outcomes(self, abr, alive, st):
        """Merge the return outcomes of a call into one value and one state."""
        acc_v, acc_s = (NONE, st) if alive else (None, None)
        raises = []
        negs = []
        for k, a in enumerate(abr):
            if a.kind == 'raise':
                c = mk_and(*([mk_not(x) for x in negs] + [a.cond]))
                raises.append((c, a.value, a.state))
            else:
                negs.append(a.cond)
        for a in reversed(abr):
            if a.kind != 'return':
                continue
            if acc_s is None:
                acc_v, acc_s = a.value, a.state
            else:
                s2 = acc_s if acc_s is not st else acc_s.copy()
                acc_v = self.join_values(a.cond, a.value, acc_v, a.state, s2)
                acc_s = self.merge(a.cond, a.state, s2)
        if acc_v is None:
            acc_v = NONE
        return acc_v, acc_s, raises

    def join_values(self, c, a, b, sa, sb):
        return mk_ite(c, a, b)

    # recursion -------------------------------------------------------------------------------

    def is_recursive(self, fi):
        if fi.recursive is None:
            name = getattr(fi.node, 'name', None)
            body = [fi.node.body] if fi.is_lambda else fi.node.body
            rec = False
            for b in body:
                for n in ast.walk(b):
                    if isinstance(n, ast.Call):
                        if isinstance(n.func, ast.Name) and n.func.id == name:
                            rec = True
                        if isinstance(n.func, ast.Attribute) and n.func.attr == name and \
                                isinstance(n.func.value, ast.Name) and n.func.value.id in ('self', 'cls'):
                            rec = True
            fi.recursive = rec
        return fi.recursive

    def known_args(self, fi, env, st):
        names = fi.params + fi.kwonly
        if fi.cls is not None and names and names[0] in ('self', 'cls'):
            names = names[1:]
        vs = [env[p] for p in names]
        return any(v.op == 'ref' for v in vs) and all(is_lit(v) or v.op == 'ref' and st.heap[v.args[0]].kind == 'obj' for v in vs)

    def fix_call(self, fi, env, st, node):
        """Summarise a recursive function once, with placeholders for the recursive calls."""
        names = fi.params + fi.kwonly
        pars = [p for p in names]
        first_is_self = fi.cls is not None and pars and pars[0] in ('self', 'cls')
        fid = next(self.lids)
        sub_env = dict(env)
        formal = []
        for p in pars:
            if first_is_self and p == pars[0]:
                continue
            s = raw('fixpar', fid, len(formal))
            v = env[p]
            # parameters that never change across the recursion could stay concrete; keep it simple
            sub_env[p] = s
            formal.append((p, s))
        ctx = {'node': fi.node, 'fid': fid, 'mods': set(), 'self': first_is_self}
        self.rec_ctx.append(ctx)
        self.quiet += 1
        # discovery of captured lists the recursion extends
        for _ in range(3):
            s0 = st.copy()
            mark = next(self.locs)
            before = s0.copy()
            for loc in ctx['mods']:
                s0.heap[loc] = s0.heap[loc].with_content(EMPTY)
            b2 = s0.copy()
            self.inline(fi, dict(sub_env), s0, node)
            new = {m[1] for m in self.changed(b2, s0, mark) if m[0] == 'h'}
            if new <= ctx['mods']:
                break
            ctx['mods'] |= new
        self.quiet -= 1
        locs = sorted(ctx['mods'])
        s1 = st.copy()
        for loc in locs:
            s1.heap[loc] = s1.heap[loc].with_content(EMPTY)
        mark = next(self.locs)
        ev_mark = len(self.events)
        self.rec_events = True
        val = self.inline(fi, dict(sub_env), s1, node)
        self.rec_ctx.pop()
        body_val = self.freeze(val, s1, mark)
        outs = [self.freeze(s1.heap[loc].content, s1, mark) for loc in locs]
        actual = tuple(self.freeze(env[p], st) for p, _ in formal)
        fix = raw('fix', fid, tuple(s for _, s in formal), body_val, tuple(raw('list', o) for o in outs))
        for n, loc in enumerate(locs):
            r = st.heap[loc]
            st.heap[loc] = r.with_content(mk_cat(r.content, raw('spread', raw('fixout', fix, actual, n))))
        # other effects of the body (allocations kept)
        for loc, r in s1.heap.items():
            if loc >= mark:
                st.heap[loc] = r
        out = raw('fixval', fix, actual)
        r = self.rec(val, st)
        if r is not None and r.kind == 'list' and val.args[0] >= mark:
            # every activation hands out a list of its own
            return self.alloc('list', raw('spread', out), st)
        return out

    def recursive_call(self, fi, env, st, node):
        ctx = next((c for c in reversed(self.rec_ctx) if c['node'] is fi.node), None)
        if ctx is None:
            return self.note('unsupported recursion in %s' % fi.qual, node)
        names = [p for p in fi.params + fi.kwonly]
        if ctx['self']:
            names = names[1:]
        actual = tuple(self.freeze(env[p], st) for p in names)
        for n, loc in enumerate(sorted(ctx['mods'])):
            r = st.heap[loc]
            st.heap[loc] = r.with_content(mk_cat(r.content, raw('spread', raw('recout', ctx['fid'], actual, n))))
        return raw('recval', ctx['fid'], actual)

    # instantiation -----------------------------------------------------------------------------

    def instantiate(self, qual, args, kwargs, st, node):
        ci = self.classes[qual]
        cut = self.cuts.get(qual)
        if cut is not None:
            r = cut(self, raw('class', qual), args, kwargs, st, node)
            if r is not None:
                return r
        if ci.is_enum:
            v = self.peek(args[0], st)
            if v.op == 'enum':
                return v
            for m in ci.members:
                if is_const(v) and m.args[2] == cval(v):
                    return m
            if v.op == 'attr' and v.args[1] == 'value':
                return v.args[0]
            return raw('enumof', qual, v)
        self.stats['functions'].add(qual)
        attrs = {}
        site = raw('oid', const(next(self.locs)), raw('tuple', *[idx(l) for s, l in self.ctx]))
        obj = self.alloc('obj', attrs, st, qual, site)
        if self.class_lookup(ci, '__eq__') is None and ci.fields is None:
            tm.IDENT.add(obj.args[0])
        init = self.class_lookup(ci, '__init__')
        if init is not None:
            self.call(raw('bound', init, obj), args, kwargs, st, node)
        elif ci.fields is not None:
            d = {}
            names = [n for n, _ in ci.fields]
            for n, a in zip(names, args):
                d[n] = a
            for n, dv in ci.fields:
                if n in kwargs:
                    d[n] = kwargs[n]
                elif n not in d and dv is not None:
                    d[n] = dv
            r = st.heap[obj.args[0]]
            st.heap[obj.args[0]] = r.with_content(d)
        else:
            libs = self.lib_bases(ci)
            if args and any('Exception' in b or 'Error' in b for b in libs):
                r = st.heap[obj.args[0]]
                st.heap[obj.args[0]] = r.with_content({'args': raw('tuple', *args)})
        self.emit('new', (const(qual), obj) + tuple(a for a in args), st, node, extra=obj)
        return obj


def drop_fresh_slot(content, path, kind, peek):
    """`if k not in d: d[k] = []` just before d[k] is extended: the update creates the slot itself."""
    parts = tm.cat_parts(content)
    if parts and parts[-1].op == 'site':
        c, a, b = parts[-1].args
        if b is EMPTY:
            c, a, b = mk_not(c), b, a
        # now: site(c, EMPTY, b) with c = key in dict
        if a is EMPTY and b.op == 'one' and b.args[0].op == 'tuple':
            k, v = b.args[0].args
            v = peek(v)
            prev = raw('dict', mk_cat(*parts[:-1]))
            if len(path) == 1:
                empty = v.op in ('list', 'set') and v.args[0] is EMPTY or kind == 'inc' and v is const(0)
            else:
                empty = v.op == 'dict' and v.args[0] is EMPTY
            if k is path[0] and empty and c is mk_in(k, prev):
                return mk_cat(*parts[:-1])
    return content


NUMOPS = {'mul', 'div', 'sum', 'mod', 'floordiv', 'pow', 'max', 'min', 'sumseq', 'acc'}


def unadd(t):
    return list(t.args) if t.op == 'add' else [t]


def match_idx(pat, t, lids):
    """Match pattern (with idx(lid) variables, lid in lids) against t."""
    m = {}

    def go(p, x):
        if isinstance(p, T):
            if p.op == 'idx' and p.args[0] in lids:
                k = p.args[0]
                if k in m:
                    return m[k] is x
                if not isinstance(x, T):
                    return False
                m[k] = x
                return True
            if not isinstance(x, T):
                return False
            if p is x:
                # still record identity bindings for the variables
                for q in subterms(p):
                    if q.op == 'idx' and q.args[0] in lids:
                        if m.setdefault(q.args[0], q) is not q:
                            return False
                return True
            if p.op != x.op or len(p.args) != len(x.args):
                return False
            return all(go(a, b) for a, b in zip(p.args, x.args))
        if isinstance(p, tuple):
            return isinstance(x, tuple) and len(p) == len(x) and all(go(a, b) for a, b in zip(p, x))
        return p == x

    return m if go(pat, t) else None
