"""Models of the builtins and of the library functions the analysed package uses."""
import ast

from . import terms as tm
from .terms import (T, raw, const, enum, top, sym, NONE, TRUE, FALSE, EMPTY, mk_ite, mk_and, mk_or, mk_not, mk_eq,
                    mk_isnone, mk_in, mk_item, mk_len, mk_cat, mk_spread, mk_slice, mk_lin, mk_lt, mk_le, mk_nonempty,
                    mk_strcat, seq_ite, mk_fmap, mk_exists, one, idx, subst, mentions, is_const, is_lit, is_str, is_int,
                    cval, subterms, lin_add, lin_sub, mk_mul, is_num)
from .base import UNDEF, STR_METHODS, MUTATORS, DICT_METHODS, known_len, Abrupt
from . import regexan

RE_FLAGS = {'I': 2, 'IGNORECASE': 2, 'L': 4, 'M': 8, 'MULTILINE': 8, 'S': 16, 'DOTALL': 16, 'U': 32, 'X': 64,
            'VERBOSE': 64, 'A': 256, 'ASCII': 256, 'UNICODE': 32}
PURE_STR = STR_METHODS - {'join', 'format', 'encode', 'decode'}


def seq_any(s, f):
    """Disjunction over the elements of a sequence."""
    if s.op == 'one':
        return f(s.args[0])
    if s.op == 'cat':
        return mk_or(*[seq_any(p, f) for p in s.args])
    if s.op == 'site':
        return mk_ite(s.args[0], seq_any(s.args[1], f), seq_any(s.args[2], f))
    if s.op == 'fmap':
        return mk_exists(s.args[0], s.args[1], seq_any(s.args[2], f))
    if s.op == 'spread':
        l = tm.fresh_lid()
        return mk_exists(s.args[0], l, f(mk_item(s.args[0], idx(l))))
    return raw('anyof', s)


def seq_sum(s):
    if s.op == 'one':
        v = s.args[0]
        if tm.is_bool(v):
            return mk_ite(v, const(1), const(0))
        return v
    if s.op == 'cat':
        return mk_lin(0, [(seq_sum(p), 1) for p in s.args])
    if s.op == 'site':
        return mk_ite(s.args[0], seq_sum(s.args[1]), seq_sum(s.args[2]))
    if s.op == 'fmap':
        from .interp import mk_sum
        return mk_sum(s.args[0], s.args[1], seq_sum(s.args[2]))
    if s.op == 'spread':
        from .interp import mk_sum
        l = tm.fresh_lid()
        return mk_sum(s.args[0], l, mk_item(s.args[0], idx(l)))
    return raw('sumof', s)


class Lib(object):

    # ------------------------------------------------------------------------------------------
    # functions
    # ------------------------------------------------------------------------------------------

    def call_lib(self, name, args, kwargs, st, node):
        cut = self.cuts.get('lib:' + name)
        if cut is not None:
            r = cut(self, raw('lib', name), args, kwargs, st, node)
            if r is not None:
                return r
        short = name.split('.', 1)
        if short[0] == 'builtins':
            m = getattr(self, 'bi_' + short[1].replace('.', '_'), None)
            if m is not None:
                return m(args, kwargs, st, node)
            if short[1].endswith('Error') or short[1].endswith('Exception') or short[1] in ('StopIteration',
                                                                                            'KeyboardInterrupt'):
                return raw('exc', const(short[1]), *[self.freeze(a, st) for a in args])
        m = getattr(self, 'lib_' + name.replace('.', '_'), None)
        if m is not None:
            return m(args, kwargs, st, node)
        parts = name.split('.')
        if parts[0] == 're':
            return self.re_call(parts[-1], args, kwargs, st, node)
        if len(parts) >= 2 and parts[0] == 'builtins' and parts[1] in ('str', 'list', 'dict', 'set'):
            if parts[1] == 'dict' and parts[-1] == 'fromkeys':
                seq = self.iter_seq(args[0], st, node)
                v = args[1] if len(args) > 1 else NONE
                s = tm.over_seq(seq, lambda x: one(raw('tuple', x, v)))
                return self.alloc('dict', s if s is not None else raw('spread', raw('fromkeys', seq, v)), st)
            if args:
                return self.call_method(args[0], parts[-1], args[1:], kwargs, st, node)
        if parts[-1] == '__init__' or name in ('builtins.super',):
            return NONE
        fargs = tuple(self.freeze(a, st) for a in args)
        kw = tuple(sorted((k, self.freeze(v, st)) for k, v in kwargs.items()))
        if parts[0] in ('tensorflow', 'tf', 'keras') and parts[-1][:1].isupper():
            # every call makes an object of its own (two inputs of one shape are two inputs)
            kw += (('#', raw('newid', next(self.lids))),)
        t = raw('libcall', name, fargs, kw)
        self.emit('libcall', (t,), st, node)
        return t

    def call_libsuper(self, f, args, kwargs, st, node):
        base, name, me = f.args
        if name == '__init__':
            if me.op == 'ref' and st.heap[me.args[0]].kind == 'obj' and ('Exception' in base or 'Error' in base):
                r = st.heap[me.args[0]]
                d = dict(r.content)
                d['args'] = raw('tuple', *args)
                st.heap[me.args[0]] = r.with_content(d)
            return NONE
        if base == 'threading.Thread' or base.endswith('Thread'):
            if name in ('start', 'join', 'run'):
                return self.thread_method(me, name, args, kwargs, st, node)
        t = raw('libsuper', base, name, self.freeze(me, st), tuple(self.freeze(a, st) for a in args))
        self.emit('libcall', (t,), st, node)
        return t

    # builtins ----------------------------------------------------------------------------------

    def bi_len(self, args, kw, st, node):
        return self.length(args[0], st, node)

    def elems(self, v, st, node):
        return self.iter_seq(v, st, node)

    def bi_any(self, args, kw, st, node):
        return seq_any(self.elems(args[0], st, node), lambda v: self.cond(v, st))

    def bi_all(self, args, kw, st, node):
        return mk_not(seq_any(self.elems(args[0], st, node), lambda v: mk_not(self.cond(v, st))))

    def bi_sum(self, args, kw, st, node):
        s = self.elems(args[0], st, node)
        start = args[1] if len(args) > 1 else kw.get('start', const(0))
        sv = self.peek(start, st)
        if sv.op == 'list':
            out = tm.over_seq(s, lambda v: self.iter_seq(v, st, node))
            if out is None:
                return self.note('sum of lists', node)
            return self.alloc('list', mk_cat(sv.args[0], out), st)
        return lin_add(seq_sum(s), sv)

    def bi_list(self, args, kw, st, node):
        return self.alloc('list', self.elems(args[0], st, node) if args else EMPTY, st)

    def bi_tuple(self, args, kw, st, node):
        if not args:
            return raw('tuple')
        s = self.elems(args[0], st, node)
        f = tm.flat_ones(s)
        if f is not None:
            return raw('tuple', *f)
        return raw('list', s)

    def bi_set(self, args, kw, st, node):
        return self.alloc('set', self.elems(args[0], st, node) if args else EMPTY, st)

    bi_frozenset = bi_set

    def bi_dict(self, args, kw, st, node):
        content = EMPTY
        if args:
            v = self.peek(args[0], st)
            if v.op == 'dict':
                content = v.args[0]
            elif v.op in ('list', 'tuple'):
                content = self.elems(v, st, node)
                pairs = tm.over_seq(content, lambda x: one(x if x.op == 'tuple' else raw(
                    'tuple', mk_item(x, const(0)), mk_item(x, const(1)))))
                content = content if pairs is None else pairs
            elif v.op in ('zip', 'enumerate'):
                content = mk_spread(v)
            else:
                content = raw('spread', raw('items', v))
        return self.alloc('dict', mk_cat(content, *[one(raw('tuple', const(k), x)) for k, x in kw.items()]), st)

    def bi_str(self, args, kw, st, node):
        return self.to_str(args[0], st) if args else const('')

    def bi_repr(self, args, kw, st, node):
        ci = self.class_of(args[0], st)
        f = self.class_lookup(ci, '__repr__') if ci is not None else None
        if f is not None and f.op == 'func':
            return self.call(raw('bound', f, args[0]), [], {}, st, node)
        return raw('fmt', 'r', self.freeze(args[0], st))

    def bi_int(self, args, kw, st, node):
        v = self.peek(args[0], st) if args else const(0)
        if is_num(v):
            return const(int(cval(v)))
        if is_str(v):
            try:
                return const(int(cval(v)))
            except ValueError:
                pass
        if v.op in ('len', 'idx', 'lin'):
            return v
        if tm.is_bool(v):
            return mk_ite(v, const(1), const(0))
        self.may_raise(raw('badint', v), 'ValueError', st, node)
        return raw('int', v)

    def bi_float(self, args, kw, st, node):
        v = self.peek(args[0], st) if args else const(0.0)
        if is_num(v) or is_str(v):
            try:
                return const(float(cval(v)))
            except ValueError:
                pass
        self.may_raise(raw('badfloat', v), 'ValueError', st, node)
        return raw('float', v)

    def bi_bool(self, args, kw, st, node):
        return self.cond(args[0], st) if args else FALSE

    def bi_abs(self, args, kw, st, node):
        return raw('abs', self.peek(args[0], st))

    def bi_round(self, args, kw, st, node):
        return raw('round', *[self.peek(a, st) for a in args])

    def bi_divmod(self, args, kw, st, node):
        a, b = self.peek(args[0], st), self.peek(args[1], st)
        return raw('tuple', raw('floordiv', a, b), raw('mod', a, b))

    def bi_print(self, args, kw, st, node):
        return NONE

    def bi_id(self, args, kw, st, node):
        return raw('id', self.freeze(args[0], st))

    def bi_hash(self, args, kw, st, node):
        return raw('hash', self.freeze(args[0], st))

    def bi_iter(self, args, kw, st, node):
        v = args[0]
        if v.op == 'ref' and st.heap[v.args[0]].kind == 'obj':
            ci = self.classes.get(st.heap[v.args[0]].cls)
            m = self.class_lookup(ci, '__iter__') if ci else None
            if m is not None:
                return self.call(raw('bound', m, v), [], {}, st, node)
            return v
        return raw('list', self.elems(v, st, node))

    def bi_next(self, args, kw, st, node):
        v = args[0]
        if v.op == 'ref' and st.heap[v.args[0]].kind == 'obj':
            ci = self.classes.get(st.heap[v.args[0]].cls)
            m = self.class_lookup(ci, '__next__') if ci else None
            if m is not None:
                return self.call(raw('bound', m, v), [], {}, st, node)
        s = self.elems(v, st, node)
        ne = tm.seq_nonempty(s)
        f = self.first_of(s)
        if v.op == 'ref' and st.heap[v.args[0]].kind == 'iter':
            rest = mk_cat(*s.args[1:]) if s.op == 'cat' and s.args and s.args[0].op == 'one' else EMPTY if s.op == 'one' else \
                mk_spread(raw('slice', raw('list', s), const(1), NONE, NONE))
            st.heap[v.args[0]] = st.heap[v.args[0]].with_content(rest)
        if len(args) > 1:
            return mk_ite(ne, f, args[1])
        self.may_raise(mk_not(ne), 'StopIteration', st, node)
        return f

    def first_of(self, s):
        if s.op == 'one':
            return s.args[0]
        if s.op == 'spread':
            return mk_item(s.args[0], const(0))
        if s.op == 'cat' and s.args:
            if s.args[0].op == 'one':
                return s.args[0].args[0]
        return mk_item(raw('list', s), const(0))

    def bi_reversed(self, args, kw, st, node):
        v = self.peek(args[0], st)
        if v.op == 'list':
            f = tm.flat_ones(v.args[0])
            if f is not None:
                return raw('list', mk_cat(*[one(x) for x in reversed(f)]))
        if v.op == 'tuple':
            return raw('tuple', *reversed(v.args))
        if v.op == 'reversed':
            return raw('list', mk_spread(v.args[0]))
        return raw('reversed', v)

    def bi_enumerate(self, args, kw, st, node):
        v = self.seqval(args[0], st, node)
        start = args[1] if len(args) > 1 else kw.get('start')
        if start is None or start is const(0):
            return raw('enumerate', v)
        return raw('enumerate', v, self.peek(start, st))

    def seqval(self, v, st, node):
        p = self.peek(v, st)
        if p.op == 'ref':
            return raw('list', self.iter_seq(v, st, node))
        if p.op == 'set' or p.op == 'dict':
            return raw('list', self.iter_seq(v, st, node))
        if p.op == 'add':
            return raw('list', self.iter_seq(p, st, node))
        return p

    def bi_zip(self, args, kw, st, node):
        if any(a.op == 'starseq' for a in args):
            if len(args) == 1:
                return raw('unzip', raw('list', args[0].args[0]))
            return self.note('zip with mixed star arguments', node)
        return raw('zip', *[self.seqval(a, st, node) for a in args])

    def bi_range(self, args, kw, st, node):
        a = [self.peek(x, st) for x in args]
        if len(a) == 1:
            return raw('range', const(0), a[0], const(1))
        if len(a) == 2:
            return raw('range', a[0], a[1], const(1))
        return raw('range', *a)

    def bi_map(self, args, kw, st, node):
        f = args[0]
        srcs = [self.seqval(a, st, node) for a in args[1:]]
        acc = self.alloc('list', EMPTY, st)
        loc = acc.args[0]
        it = srcs[0] if len(srcs) == 1 else raw('zip', *srcs)

        def body(s, v):
            a = [v] if len(srcs) == 1 else [mk_item(v, const(k)) for k in range(len(srcs))]
            r = self.call(f, a, {}, s, node)
            ab = self.flush(s, node)
            rec = s.heap[loc]
            s.heap[loc] = rec.with_content(mk_cat(rec.content, one(r)))
            return ab, True

        abr, _ = self.for_seq(self.iter_seq(it, st, node), st, body)
        for a in abr:
            if a.kind == 'raise':
                st.pending.append((a.cond, a.value, a.state))
        return acc

    def bi_filter(self, args, kw, st, node):
        f = args[0]
        acc = self.alloc('list', EMPTY, st)
        loc = acc.args[0]

        def body(s, v):
            c = self.cond(v if f is NONE else self.call(f, [v], {}, s, node), s)
            ab = self.flush(s, node)
            rec = s.heap[loc]
            s.heap[loc] = rec.with_content(mk_cat(rec.content, seq_ite(c, one(v), EMPTY)))
            return ab, True

        abr, _ = self.for_seq(self.elems(args[1], st, node), st, body)
        for a in abr:
            if a.kind == 'raise':
                st.pending.append((a.cond, a.value, a.state))
        return acc

    def keyfun(self, kw, st, node):
        k = kw.get('key')
        if k is None or k is NONE:
            return NONE
        x = raw('karg')
        s = st.copy()
        self.quiet += 1
        r = self.call(k, [x], {}, s, node)
        self.quiet -= 1
        return self.freeze(r, s)

    def bi_sorted(self, args, kw, st, node):
        s = self.elems(args[0], st, node)
        return self.alloc('list', self.sort_seq(s, kw, st, node), st)

    def sort_seq(self, s, kw, st, node):
        key = self.keyfun(kw, st, node)
        rev = self.cond(kw.get('reverse', FALSE), st)
        if key.op == 'lin' and key.args[0] == 0 and len(key.args[1]) == 1 and key.args[1][0][1] < 0 and rev in (TRUE, FALSE):
            key, rev = tm.lin_scale(key, -1), mk_not(rev)       # stable in both directions
        f = tm.flat_ones(s)
        if f is not None and len(f) <= 1:
            return s
        if f is not None and key is NONE and all(is_const(x) for x in f):
            try:
                return mk_cat(*[one(x) for x in sorted(f, key=lambda t: cval(t), reverse=rev is TRUE)])
            except TypeError:
                pass
        if s.op == 'spread' and s.args[0].op == 'sorted' and s.args[0].args[1:] == (key, rev):
            return s
        r = self.sort_known(s, kw, rev, st, node)
        if r is not None:
            return r
        return raw('spread', raw('sorted', raw('list', s), key, rev))

    def sort_known(self, s, kw, rev, st, node):
        """Objects whose sort keys are constants."""
        f = tm.guarded_ones(s)
        fn = kw.get('key')
        if not f or fn is None or rev not in (TRUE, FALSE) or any(x.op != 'ref' for _, x in f) or len(f) > 8:
            return None
        ks = [self.call(fn, [x], {}, st, node) for _, x in f]
        if not all(is_const(k) and isinstance(cval(k), (int, float)) for k in ks):
            return None
        order = sorted(range(len(f)), key=lambda i: cval(ks[i]), reverse=rev is TRUE)
        return mk_cat(*[one(f[i][1]) if f[i][0] is TRUE else tm.seq_ite(f[i][0], one(f[i][1]), EMPTY) for i in order])

    def minmax(self, op, args, kw, st, node):
        key = self.keyfun(kw, st, node)
        if len(args) == 1:
            s = self.elems(args[0], st, node)
            f = tm.flat_ones(s)
            if f is None:
                d = kw.get('default')
                t = tm.mk_extreme(op + 'of', raw('list', s), key)
                return t if d is None else mk_ite(tm.seq_nonempty(s), t, d)
            if not f:
                return kw.get('default', tm.top('empty ' + op))
        else:
            f = [self.peek(a, st) for a in args]
        if key is NONE and all(is_num(x) for x in f):
            return const((max if op == 'max' else min)(cval(x) for x in f))
        f = sorted(set(f), key=tm.sort_key)
        if len(f) == 1:
            return f[0]
        return raw(op, key, *f)

    def bi_max(self, args, kw, st, node):
        return self.minmax('max', args, kw, st, node)

    def bi_min(self, args, kw, st, node):
        return self.minmax('min', args, kw, st, node)

    def bi_isinstance(self, args, kw, st, node):
        v = self.peek(args[0], st)
        c = args[1]
        kinds = [c] if c.op != 'tuple' else list(c.args)
        names = [k.args[0].split('.')[-1] if k.op in ('lib', 'class') else '?' for k in kinds]
        if v.op == 'const':
            mro = [t.__name__ for t in type(cval(v)).__mro__]
            return const(any(n in mro for n in names))
        if v.op in ('list', 'dict', 'set', 'tuple'):
            return const(v.op in names)
        return raw('isinstance', v, tuple(sorted(names)))

    def bi_type(self, args, kw, st, node):
        v = args[0]
        if v.op == 'ref' and st.heap[v.args[0]].kind == 'obj':
            return raw('class', st.heap[v.args[0]].cls)
        return raw('typeof', self.peek(v, st))

    def bi_getattr(self, args, kw, st, node):
        if is_str(args[1]):
            return self.get_attr(args[0], cval(args[1]), st, node)
        return self.note('dynamic getattr', node)

    def bi_setattr(self, args, kw, st, node):
        if is_str(args[1]):
            self.set_attr(args[0], cval(args[1]), args[2], st, node)
            return NONE
        return self.note('dynamic setattr', node)

    def bi_hasattr(self, args, kw, st, node):
        return raw('hasattr', self.freeze(args[0], st), args[1])

    def bi_callable(self, args, kw, st, node):
        return raw('callable', self.freeze(args[0], st))

    def bi_object(self, args, kw, st, node):
        return raw('newobject', const(next(self.locs)))

    def bi_open(self, args, kw, st, node):
        names = ['file', 'mode', 'buffering', 'encoding', 'errors', 'newline']
        d = {}
        for n, a in zip(names, args):
            d[n] = a
        d.update(kw)
        mode = self.peek(d.get('mode', const('r')), st)
        enc = self.peek(d.get('encoding', NONE), st)
        extra = tuple(sorted((k, self.peek(v, st)) for k, v in d.items() if k not in ('file', 'mode', 'encoding')))
        t = raw('file', self.freeze(self.peek(d.get('file', NONE), st), st), mode, enc, extra)
        self.emit('open', (t,), st, node, extra=node)
        return t

    # ------------------------------------------------------------------------------------------
    # library modules
    # ------------------------------------------------------------------------------------------

    def lib_collections_deque(self, args, kw, st, node):
        return self.alloc('deque', self.elems(args[0], st, node) if args else EMPTY, st)

    def lib_collections_OrderedDict(self, args, kw, st, node):
        return self.bi_dict(args, kw, st, node)

    def lib_collections_defaultdict(self, args, kw, st, node):
        r = self.alloc('dict', EMPTY, st)
        self.dd_factory[r.args[0]] = args[0] if args else NONE
        return r

    def lib_collections_Counter(self, args, kw, st, node):
        content = EMPTY
        if args:
            content = tm.over_seq(self.iter_seq(args[0], st, node), lambda x: one(raw('inc', x, const(1))))
            if content is None:
                content = raw('spread', raw('items', raw('counted', self.freeze(args[0], st))))
        r = self.alloc('dict', content, st)
        self.dd_factory[r.args[0]] = raw('lib', 'builtins.int')
        return r

    def lib_itertools_chain(self, args, kw, st, node):
        return raw('list', mk_cat(*[self.elems(a, st, node) for a in args if a.op != 'starseq']) if not any(
            a.op == 'starseq' for a in args) else self.flatten(args[0].args[0], st, node))

    def lib_itertools_chain_from_iterable(self, args, kw, st, node):
        return raw('list', self.flatten(self.elems(args[0], st, node), st, node))

    def flatten(self, seq, st, node):
        r = tm.over_seq(seq, lambda v: self.iter_seq(v, st, node))
        if r is None:
            self.note('flatten', node)
            return raw('spread', top('flatten'))
        return r

    def lib_itertools_groupby(self, args, kw, st, node):
        v = self.seqval(args[0], st, node)
        k = args[1] if len(args) > 1 else kw.get('key')
        key = self.keyfun({'key': k} if k is not None else {}, st, node)
        return raw('groupby', v, key)

    def lib_itertools_product(self, args, kw, st, node):
        if kw or any(a.op == 'starseq' for a in args):
            return self.note('itertools.product', node)
        seqs = [self.elems(a, st, node) for a in args]

        def rec(k, acc):
            if k == len(seqs):
                return one(raw('tuple', *acc))
            return tm.over_seq(seqs[k], lambda v: rec(k + 1, acc + [v]))
        r = rec(0, [])
        return raw('list', r) if r is not None else self.note('itertools.product', node)

    def lib_functools_partial(self, args, kw, st, node):
        if kw:
            return self.note('partial with keywords', node)
        return raw('partial', args[0], tuple(args[1:]))

    def lib_operator_itemgetter(self, args, kw, st, node):
        return raw('getter', 'item', tuple(args))

    def lib_operator_attrgetter(self, args, kw, st, node):
        return raw('getter', 'attr', tuple(args))

    def lib_numpy_zeros(self, args, kw, st, node):
        shape = self.freeze(self.peek(args[0] if args else kw['shape'], st), st)
        return self.alloc('arr', one(raw('tuple', raw('init'), shape, const(0))), st)

    def lib_numpy_empty(self, args, kw, st, node):
        shape = self.freeze(self.peek(args[0] if args else kw['shape'], st), st)
        return self.alloc('arr', one(raw('tuple', raw('init'), shape, raw('garbage'))), st)

    def lib_numpy_array(self, args, kw, st, node):
        v = self.peek(args[0], st)
        if v.op == 'nparray':
            return v
        return raw('nparray', v)

    lib_numpy_asarray = lib_numpy_array

    def lib_numpy_linspace(self, args, kw, st, node):
        d = dict(zip(['start', 'stop', 'num'], args))
        d.update(kw)
        n = self.peek(d.get('num', const(50)), st)
        dt = d.get('dtype')
        t = raw('linspace', self.peek(d['start'], st), self.peek(d['stop'], st), n)
        extra = sorted(k for k in d if k not in ('start', 'stop', 'num', 'dtype'))
        if extra:
            return raw('libcall', 'numpy.linspace', tuple(d[k] for k in sorted(d)), tuple(sorted(d)))
        if dt is not None and dt is not NONE and 'int' in tm.show(dt):
            l = tm.fresh_lid()
            return raw('list', mk_fmap(t, l, one(raw('int', mk_item(t, idx(l))))))
        return t

    def lib_numpy_concatenate(self, args, kw, st, node):
        if kw:
            return raw('npcat', self.freeze(self.peek(args[0], st), st), tuple(sorted((k, v) for k, v in kw.items())))
        return raw('npcat', self.freeze(self.seqval(args[0], st, node), st))

    def lib_numpy_argmax(self, args, kw, st, node):
        v = self.peek(args[0], st)
        extra = [self.peek(a, st) for a in args[1:]] + [kw[k] for k in sorted(kw)]
        if len(extra) == 1 and is_int(extra[0]) and cval(extra[0]) == -1:
            pass
        return raw('argmax', v, *extra)

    def lib_numpy_argmin(self, args, kw, st, node):
        t = self.lib_numpy_argmax(args, kw, st, node)
        return raw('argmin', *t.args)

    def lib_numpy_maximum(self, args, kw, st, node):
        return raw('npmax', *sorted([self.zeros(self.freeze(self.peek(a, st), st)) for a in args], key=tm.sort_key))

    def zeros(self, v):
        """an array of zeros acts as 0 next to an array"""
        if v.op == 'arr' and v.args[0].op == 'one' and v.args[0].args[0].op == 'tuple' and \
                v.args[0].args[0].args[0].op == 'init' and v.args[0].args[0].args[-1] in (const(0), const(0.0)):
            return const(0)
        return const(0) if v is const(0.0) else v

    def lib_math_log(self, args, kw, st, node):
        v = self.peek(args[0], st)
        self.may_raise(raw('nonpos', v), 'ValueError', st, node)
        return raw('log', v, *[self.peek(a, st) for a in args[1:]])

    def lib_random_shuffle(self, args, kw, st, node):
        v = args[0]
        if v.op == 'ref':
            r = st.heap[v.args[0]]
            self.write_rec(v, st, raw('spread', raw('shuffled', raw('list', r.content))), node, 'shuffle')
        return NONE

    def lib_copy_copy(self, args, kw, st, node):
        v = args[0]
        if v.op == 'ref':
            r = st.heap[v.args[0]]
            loc = next(self.locs)
            st.heap[loc] = r.with_content(dict(r.content) if r.kind == 'obj' else r.content)
            return raw('ref', loc)
        return v

    def lib_copy_deepcopy(self, args, kw, st, node):
        v = self.freeze(args[0], st)
        return v

    def lib_multiprocessing_cpu_count(self, args, kw, st, node):
        return raw('cpu_count')

    lib_os_cpu_count = lib_multiprocessing_cpu_count

    def lib_contextlib_nullcontext(self, args, kw, st, node):
        return args[0] if args else NONE

    def lib_timeit_default_timer(self, args, kw, st, node):
        return raw('now')

    # regular expressions ------------------------------------------------------------------------

    def re_flags(self, v, st):
        v = self.peek(v, st)
        if is_int(v):
            return cval(v)
        if v.op == 'lib':
            return RE_FLAGS.get(v.args[0].split('.')[-1], 0)
        if v.op == 'flags':
            n = 0
            for x in v.args:
                n |= self.re_flags(x, st)
            return n
        return 0

    def regex(self, v, st, flags=0):
        v = self.peek(v, st)
        if v.op in ('regex', 'regexof'):
            return v
        if is_str(v):
            return raw('regex', regexan.canonical(cval(v), flags), const(cval(v)), flags)
        if v.op == 'ite':
            return mk_ite(v.args[0], self.regex(v.args[1], st, flags), self.regex(v.args[2], st, flags))
        return raw('regexof', v, flags)

    def re_call(self, fn, args, kwargs, st, node):
        if fn == 'compile':
            fl = self.re_flags(args[1] if len(args) > 1 else kwargs.get('flags', const(0)), st)
            return self.regex(args[0], st, fl)
        if fn == 'escape':
            v = self.peek(args[0], st)
            if is_str(v):
                import re
                return const(re.escape(cval(v)))
            return raw('reescape', v)
        spec = {'sub': ['pattern', 'repl', 'string', 'count', 'flags'],
                'subn': ['pattern', 'repl', 'string', 'count', 'flags'],
                'split': ['pattern', 'string', 'maxsplit', 'flags']}
        names = spec.get(fn, ['pattern', 'string', 'flags'])
        d = dict(zip(names, args))
        d.update(kwargs)
        fl = self.re_flags(d.get('flags', const(0)), st)
        p = self.regex(d['pattern'], st, fl)
        s = self.peek(d.get('string', NONE), st)
        return self.re_apply(fn, p, d.get('repl'), s, d.get('count', d.get('maxsplit')), st, node)

    def re_apply(self, fn, p, repl, s, count, st, node):
        if fn == 'sub':
            if repl.op in ('func', 'bound'):
                x = raw('marg')
                s2 = st.copy()
                self.quiet += 1
                r = self.call(repl, [x], {}, s2, node)
                self.quiet -= 1
                repl = raw('replfun', self.freeze(r, s2))
            else:
                repl = self.peek(repl, st)
                if is_str(repl):
                    repl = const(regexan.canonical_repl(cval(repl)))
            if count is not None and count is not const(0):
                return raw('resub', p, repl, s, count)
            if p.op == 'regex' and is_str(repl) and '\\' not in cval(repl) and not p.args[2] & 2 and \
                    cval(p.args[1]) and all(c.isalnum() or c in '_ ' for c in cval(p.args[1])):
                return self.str_method(s, 'replace', [p.args[1], repl], {}, st, node)
            return raw('resub', p, repl, s)
        if fn in ('match', 'search', 'fullmatch'):
            return raw('match', fn, p, s)
        if fn == 'finditer':
            return raw('refinditer', p, s)
        if fn == 'findall':
            return raw('refindall', p, s)
        if fn == 'split':
            return raw('resplit', p, s)
        return raw('recall', fn, p, s)

    # ------------------------------------------------------------------------------------------
    # methods
    # ------------------------------------------------------------------------------------------

    def call_method(self, recv, name, args, kwargs, st, node):
        if recv.op == 'ite' and any(x.op in ('ref', 'const', 'obj') for x in recv.args[1:]):
            a, b = recv.args[1], recv.args[2]
            if a is NONE or b is NONE:
                return self.call_attr(b if a is NONE else a, name, args, kwargs, st, node)
            return self.cond_values(recv.args[0], st, lambda s: self.call_attr(a, name, args, kwargs, s, node),
                                    lambda s: self.call_attr(b, name, args, kwargs, s, node))
        if recv.op == 'ref':
            r = st.heap[recv.args[0]]
            if r.kind in ('list', 'deque'):
                return self.list_method(recv, r, name, args, kwargs, st, node)
            if r.kind == 'set':
                return self.set_method(recv, r, name, args, kwargs, st, node)
            if r.kind == 'dict':
                return self.dict_method(recv, r, name, args, kwargs, st, node)
            if r.kind == 'arr':
                return self.arr_method(recv, r, name, args, kwargs, st, node)
            ci = self.classes.get(r.cls)
            if ci is not None and any('Thread' in b for b in self.lib_bases(ci)):
                return self.thread_method(recv, name, args, kwargs, st, node)
        if recv.op == 'obj':
            ci = self.classes.get(recv.args[0])
            if ci is not None and any('Thread' in b for b in self.lib_bases(ci)):
                return self.thread_method(recv, name, args, kwargs, st, node)
        if recv.op == 'mmslot' or recv in self.origin:
            slot = self.slot_of(recv, st)
            if slot is not None and name in MUTATORS and (
                    self.slot_mutation(slot, name, args, st, node) or
                    self.slot_rewrite(slot, recv, name, args, kwargs, st, node)):
                return NONE
            if recv.op == 'mmslot' and name == 'setdefault' and len(args) == 2:
                return raw('mmslot', recv.args[0], recv.args[1] + (self.peek(args[0], st),),
                           self.peek(args[1], st).op)
            if recv in self.origin and slot is not None and name == 'setdefault' and len(args) == 2:
                return raw('mmslot', slot[0], slot[1] + (self.peek(args[0], st),), self.peek(args[1], st).op)
        if recv.op == 'mmslot':
            recv = self.peek(recv, st)
        rv = recv
        if rv.op == 'regex':
            return self.regex_method(rv, name, args, kwargs, st, node)
        if rv.op == 'regexof':
            return self.regex_method(rv, name, args, kwargs, st, node)
        if rv.op == 'match' or rv.op == 'item' and rv.args[0].op == 'refinditer' or rv.op == 'marg':
            if name in ('group', 'start', 'end', 'span', 'groups', '__getitem__'):
                ks = [self.peek(a, st) for a in args]
                if name == '__getitem__':
                    name = 'group'
                if not ks and name != 'groups':
                    ks = [const(0)]
                if name == 'groups' and not ks and rv.op == 'match' and rv.args[1].op == 'regex':
                    import re
                    n = re.compile(cval(rv.args[1].args[1]), rv.args[1].args[2]).groups
                    return raw('tuple', *[raw('mgroup', 'group', rv, const(k + 1)) for k in range(n)])
                if name == 'span':
                    return raw('tuple', raw('mgroup', 'start', rv, *ks), raw('mgroup', 'end', rv, *ks))
                if name == 'group' and len(ks) > 1:
                    return raw('tuple', *[raw('mgroup', 'group', rv, k) for k in ks])
                return raw('mgroup', name, rv, *ks)
        if rv.op in ('list', 'tuple'):
            ref = self.alloc('list', mk_spread(rv), st)
            return self.list_method(ref, st.heap[ref.args[0]], name, args, kwargs, st, node)
        if rv.op == 'dict':
            ref = self.alloc('dict', rv.args[0], st)
            return self.dict_method(ref, st.heap[ref.args[0]], name, args, kwargs, st, node)
        if rv.op == 'set':
            ref = self.alloc('set', rv.args[0], st)
            return self.set_method(ref, st.heap[ref.args[0]], name, args, kwargs, st, node)
        if rv.op == 'file':
            self.emit('fileop', (rv, const(name)) + tuple(args), st, node)
            return raw('fileop', rv, name, tuple(self.freeze(self.peek(a, st), st) for a in args))
        if name in ('items', 'keys', 'values') and not args:
            return raw(name, rv)
        if name == 'get' and 1 <= len(args) <= 2:
            k = self.peek(args[0], st)
            d = args[1] if len(args) > 1 else NONE
            d = self.peek(d, st)
            return mk_ite(mk_in(k, rv), mk_item(rv, k), d)
        if name in STR_METHODS and (tm.stringy(rv) or rv.op not in ('lib', 'module', 'class', 'func')):
            if not (name in ('index', 'count', 'find') and not self.maybe_str(rv)):
                return self.str_method(rv, name, args, kwargs, st, node)
        if name in MUTATORS:
            slot = self.view_slot(rv, st)
            if slot is not None and self.slot_rewrite(slot, rv, name, args, kwargs, st, node):
                return NONE
            pc = self.opaque_mutation(rv, name, args, st, node)
            if name in ('pop', 'popleft', 'setdefault', 'popitem'):
                return raw('popped', rv, name, tuple(self.freeze(self.peek(a, st), st) for a in args))
            return NONE
        if rv.op == 'krow_batch' and name == 'tolist':
            return rv
        if name == 'copy' and not args:
            return rv
        if name in ('argmax', 'argmin'):
            return getattr(self, 'lib_numpy_' + name)([rv] + list(args), kwargs, st, node)
        if name == 'group' and not args:
            args = [const(0)]
        f = raw('attr', rv, name)
        return self.opaque_call(f, args, kwargs, st, node)

    def maybe_str(self, rv):
        return True

    def call_attr(self, o, name, args, kwargs, st, node):
        f = self.get_attr(o, name, st, node)
        return self.call(f, args, kwargs, st, node)

    def regex_method(self, p, name, args, kwargs, st, node):
        if name == 'sub':
            d = dict(zip(['repl', 'string', 'count'], args))
            d.update(kwargs)
            return self.re_apply('sub', p, d['repl'], self.peek(d['string'], st), d.get('count'), st, node)
        if name in ('match', 'search', 'fullmatch', 'finditer', 'findall', 'split'):
            d = dict(zip(['string', 'pos', 'endpos'], args))
            d.update(kwargs)
            if len(d) > 1:
                return raw('recall', name, p, *[self.peek(d[k], st) for k in sorted(d)])
            return self.re_apply(name, p, None, self.peek(d['string'], st), None, st, node)
        return self.note('regex method %s' % name, node)

    # strings -----------------------------------------------------------------------------------

    def str_method(self, s, name, args, kwargs, st, node):
        a = [self.peek(x, st) for x in args]
        if name == 'join' and not args:
            return self.opaque_call(raw('attr', s, name), args, kwargs, st, node)
        if name == 'join':
            seq = self.iter_seq(args[0], st, node)
            flat = tm.flat_ones(seq)
            if flat is not None and len(flat) <= 12:
                out = []
                for k, x in enumerate(flat):
                    if k:
                        out.append(s)
                    out.append(x)
                return mk_strcat(*out)
            if seq.op == 'spread' and seq.args[0].op == 'strm' and seq.args[0].args[0] == 'split' and False:
                pass
            return raw('join', s, raw('list', seq))
        if name == 'format':
            if is_str(s):
                r = self.brace_format(cval(s), args, kwargs, st, node)
                if r is not None:
                    return r
            return raw('strm', 'format', s, *a)
        if kwargs:
            if name in ('split', 'rsplit') and set(kwargs) <= {'sep', 'maxsplit'}:
                a = [self.peek(kwargs.get('sep', NONE), st)] + ([self.peek(kwargs['maxsplit'], st)]
                                                                if 'maxsplit' in kwargs else [])
            else:
                return raw('strm', name, s, *(a + [raw('kw', k, self.peek(v, st)) for k, v in sorted(kwargs.items())]))
        if name in ('startswith', 'endswith') and a and a[0].op == 'tuple' and len(a) == 1:
            return mk_or(*[self.str_method(s, name, [x], {}, st, node) for x in a[0].args])
        if is_str(s) and all(is_const(x) for x in a):
            try:
                r = getattr(cval(s), name)(*[cval(x) for x in a])
                if isinstance(r, list):
                    return self.alloc('list', mk_cat(*[one(const(x)) for x in r]), st)
                if isinstance(r, tuple):
                    return raw('tuple', *[const(x) for x in r])
                return const(r)
            except Exception:
                pass
        if s.op == 'ite' and (is_const(s.args[1]) or is_const(s.args[2])):
            x = self.str_method(s.args[1], name, args, kwargs, st, node)
            y = self.str_method(s.args[2], name, args, kwargs, st, node)
            return mk_ite(s.args[0], x, y)
        if name in ('startswith', 'endswith'):
            if len(a) == 1 and is_str(a[0]) and cval(a[0]) == '':
                return TRUE
            return raw(name, s, *a)
        if name == 'split' and a and a[0] is NONE:
            a = a[1:]
        if name == 'strip' and not a and s.op == 'strm' and s.args[0] == 'strip' and len(s.args) == 2:
            return s
        if name == 'lower' and s.op == 'strm' and s.args[0] == 'lower':
            return s
        return raw('strm', name, s, *a)

    def brace_format(self, fmt, args, kwargs, st, node):
        import string
        out = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(fmt):
                if lit:
                    out.append(const(lit))
                if field is None:
                    continue
                if field == '':
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field in kwargs:
                    v = kwargs[field]
                else:
                    return None
                if conv not in (None, 's'):
                    return None
                if spec in ('', 's', 'd'):
                    out.append(self.to_str(v, st))
                else:
                    out.append(raw('fmt', spec, self.peek(v, st)))
        except (IndexError, ValueError):
            return None
        return mk_strcat(*out)

    # lists -------------------------------------------------------------------------------------

    def list_method(self, ref, r, name, args, kwargs, st, node):
        c = r.content
        if name == 'append':
            self.write_rec(ref, st, mk_cat(c, one(args[0])), node, 'append')
            return NONE
        if name == 'extend':
            self.write_rec(ref, st, mk_cat(c, self.iter_seq(args[0], st, node)), node, 'extend')
            return NONE
        if name == 'appendleft':
            self.write_rec(ref, st, mk_cat(one(args[0]), c), node, 'appendleft')
            return NONE
        if name == 'insert':
            if args[0] is const(0):
                self.write_rec(ref, st, mk_cat(one(args[1]), c), node, 'insert')
            else:
                self.write_rec(ref, st, raw('spread', raw('inserted', raw('list', c), self.peek(args[0], st),
                                                          args[1])), node, 'insert')
            return NONE
        if name in ('pop', 'popleft'):
            k = const(0) if name == 'popleft' else (self.peek(args[0], st) if args else const(-1))
            lst = raw('list', c)
            self.may_raise(mk_not(tm.seq_nonempty(c)), 'IndexError', st, node)
            self.emit('pop', (lst, k), st, node)
            v = mk_item(lst, k)
            if k is const(0):
                rest = mk_slice(lst, const(1), NONE, NONE)
            elif k is const(-1):
                rest = mk_slice(lst, NONE, const(-1), NONE)
            else:
                rest = raw('without', lst, k)
            self.write_rec(ref, st, mk_spread(rest), node, 'pop')
            return v
        if name == 'clear':
            self.write_rec(ref, st, EMPTY, node, 'clear')
            return NONE
        if name == 'reverse':
            f = tm.flat_ones(c)
            if f is not None:
                n = mk_cat(*[one(x) for x in reversed(f)])
            else:
                n = raw('spread', raw('reversed', raw('list', c)))
            self.write_rec(ref, st, n, node, 'reverse')
            return NONE
        if name == 'sort':
            self.write_rec(ref, st, self.sort_seq(c, kwargs, st, node), node, 'sort')
            return NONE
        if name == 'copy':
            return self.alloc(r.kind, c, st)
        if name == 'remove':
            self.write_rec(ref, st, raw('spread', raw('removed', raw('list', c), self.peek(args[0], st))), node,
                           'remove')
            return NONE
        if name == 'index':
            return raw('indexof', raw('list', c), *[self.peek(a, st) for a in args])
        if name == 'count':
            return raw('countof', raw('list', c), self.peek(args[0], st))
        if name == '__iter__':
            return ref
        if name == '__len__':
            return self.length(ref, st, node)
        if name == '__getitem__':
            return self.get_item(ref, args[0], st, node)
        return self.note('list method %s' % name, node)

    def arr_method(self, ref, r, name, args, kwargs, st, node):
        if name in ('tolist', 'copy', 'astype'):
            return self.freeze(ref, st)
        if name == 'fill':
            self.write_rec(ref, st, mk_cat(r.content, one(raw('tuple', raw('fill'), self.peek(args[0], st)))), node,
                           'fill')
            return NONE
        return self.note('array method %s' % name, node)

    # sets --------------------------------------------------------------------------------------

    def set_method(self, ref, r, name, args, kwargs, st, node):
        c = r.content
        if name == 'add':
            self.write_rec(ref, st, mk_cat(c, one(args[0])), node, 'add')
            return NONE
        if name == 'update':
            self.write_rec(ref, st, mk_cat(c, *[self.iter_seq(a, st, node) for a in args]), node, 'update')
            return NONE
        if name == 'clear':
            self.write_rec(ref, st, EMPTY, node, 'clear')
            return NONE
        if name == 'copy':
            return self.alloc('set', c, st)
        if name == 'union':
            return self.alloc('set', mk_cat(c, *[self.iter_seq(a, st, node) for a in args]), st)
        if name in ('difference', 'intersection', 'symmetric_difference'):
            o = self.peek(args[0], st)
            if o.op in ('list', 'tuple'):
                o = raw("set", mk_spread(o)) if o.op != "set" else o
            return self.set_op({'difference': 'sub', 'intersection': 'and', 'symmetric_difference': 'xor'}[name],
                               raw('set', c), o, st)
        if name in ('discard', 'remove'):
            self.write_rec(ref, st, raw('spread', raw('setop', 'sub', raw('set', c), raw('set', one(self.peek(
                args[0], st))))), node, name)
            return NONE
        if name in ('issubset', 'issuperset', 'isdisjoint'):
            o = self.peek(args[0], st)
            if name == 'isdisjoint':
                return mk_not(seq_any(c, lambda v: self.contains(v, o, st, node)))
            if name == 'issubset':
                return mk_not(seq_any(c, lambda v: mk_not(self.contains(v, o, st, node))))
            return mk_not(seq_any(self.iter_seq(o, st, node), lambda v: mk_not(self.contains(v, ref, st, node))))
        if name == 'pop':
            v = raw('popped', raw('set', c), 'pop', ())
            self.write_rec(ref, st, raw('spread', raw('setop', 'sub', raw('set', c), raw('set', one(v)))), node, 'pop')
            return v
        return self.note('set method %s' % name, node)

    # dicts -------------------------------------------------------------------------------------

    def dict_method(self, ref, r, name, args, kwargs, st, node):
        d = raw('dict', r.content)
        if name == 'get':
            k = self.peek(args[0], st)
            dv = args[1] if len(args) > 1 else NONE
            c = self.contains(k, ref, st, node)
            c = self.simp(c, st)
            if c is FALSE:
                return dv
            v = self.dict_item(d, k, st)
            if c is TRUE:
                return v
            return mk_ite(c, v, self.peek(dv, st))
        if name in ('items', 'keys', 'values'):
            v = raw(name, d)
            self.views[v] = ref if self.views.get(v, ref) is ref else None
            return v
        if name == 'copy':
            return self.alloc('dict', r.content, st)
        if name == 'clear':
            self.write_rec(ref, st, EMPTY, node, 'clear')
            return NONE
        if name == 'setdefault':
            dv = self.peek(args[1], st) if len(args) > 1 else NONE
            k = self.peek(args[0], st)
            if dv.op in ('list', 'set', 'dict') and dv.args[0] is EMPTY:
                return raw('mmslot', ref, (k,), dv.op)
            c = self.contains(k, ref, st, node)
            v = mk_ite(c, self.dict_item(d, k, st) if c is not FALSE else NONE, args[1] if len(args) > 1 else NONE)
            self.write_rec(ref, st, mk_cat(r.content, seq_ite(c, EMPTY, one(raw('tuple', k, v)))), node, 'setdefault')
            return v
        if name == 'update':
            parts = [r.content]
            for a in args:
                v = self.peek(a, st)
                parts.append(v.args[0] if v.op == 'dict' else self.iter_seq(v, st, node) if v.op in ('list', 'tuple')
                             else raw('spread', raw('items', v)))
            parts += [one(raw('tuple', const(k), v)) for k, v in kwargs.items()]
            self.write_rec(ref, st, mk_cat(*parts), node, 'update')
            return NONE
        if name == 'pop':
            k = self.peek(args[0], st)
            v = self.dict_item(d, k, st)
            if len(args) > 1:
                v = mk_ite(self.contains(k, ref, st, node), v, args[1])
            self.write_rec(ref, st, raw('spread', raw('items', raw('without', d, k))), node, 'pop')
            return v
        if name == '__contains__':
            return self.contains(args[0], ref, st, node)
        if name == '__getitem__':
            return self.get_item(ref, args[0], st, node)
        return self.note('dict method %s' % name, node)

    # threads -----------------------------------------------------------------------------------

    def thread_method(self, me, name, args, kwargs, st, node):
        ci = self.class_of(me, st)
        if name in ('start', 'run'):
            run = self.class_lookup(ci, 'run')
            if run is None:
                return self.note('thread without run()', node)
            self.emit('thread_start', (self.freeze(me, st),), st, node)
            before = st.copy()
            old = st.pending
            st.pending = []
            self.call(raw('bound', run, me), [], {}, st, node)
            lost = st.pending
            st.pending = old
            if lost:
                self.emit('lostraise', tuple(self.freeze(c, st) for c, _, _ in lost), st, node)
                for c, e, s in lost:
                    # the exception dies with the thread: the caller continues from the state at that point
                    s2 = s.copy()
                    s2.pc, s2.facts = st.pc, st.facts
                    keep = st.pending
                    st.become(self.merge(c, s2, st.copy()))
                    st.pending = keep
                st.pc, st.facts = before.pc, before.facts
            # attributes written by the thread
            written = set()
            if me.op == 'ref':
                b, a = before.heap[me.args[0]].content, st.heap[me.args[0]].content
                written = {k for k in a if b.get(k) is not a[k] or
                           a[k].op == 'ref' and before.heap.get(a[k].args[0]) is not st.heap.get(a[k].args[0])}
            else:
                written = {k[1] for k in st.over if k[0] is me and before.over.get(k) is not st.over[k]}
            self.mark(me, '$racy', raw('names', tuple(sorted(written))), st)
            return NONE
        if name == 'join':
            if args or kwargs:
                a = self.peek(args[0] if args else next(iter(kwargs.values())), st)
                if a is not NONE:
                    self.emit('join_timeout', (a,), st, node)
                    return NONE
            self.emit('thread_join', (self.freeze(me, st),), st, node)
            self.mark(me, '$joined', TRUE, st)
            return NONE
        if name in ('is_alive',):
            return raw('is_alive', self.freeze(me, st))
        return self.opaque_call(raw('attr', me, name), args, kwargs, st, node)

    def mark(self, o, name, v, st):
        if o.op == 'ref':
            r = st.heap[o.args[0]]
            d = dict(r.content)
            d[name] = v
            st.heap[o.args[0]] = r.with_content(d)
        else:
            st.over[(o, name)] = v

    def race_check(self, o, name, v, st, node):
        if name.startswith('$'):
            return
        if o.op == 'ref':
            d = st.heap[o.args[0]].content
        else:
            d = dict(o.args[1])
        racy = d.get('$racy')
        if racy is None and o.op != 'ref':
            racy = self.over_read(o, '$racy', st)
        if racy is None:
            return
        if any(s.qual.endswith('.run') for s in self.stack):
            return
        j = d.get('$joined')
        if j is None and o.op != 'ref':
            j = self.over_read(o, '$joined', st)
        if j is TRUE:
            return
        if racy.op == 'names' and name in racy.args[0]:
            self.emit('race', (const(name), self.freeze(o, st)), st, node)
