"""Hash-consed value-flow terms (gated value graph) and their normalisation.

A term denotes the value an expression takes, as a function of the inputs of the analysed entry
point.  Joins are gated (`ite`), loops are summarised (`fmap`, `sum`, `psum`, `fold`).  All the
constructors normalise, so that behaviour-preserving rewrites of the analysed source meet in the
same term.  Nothing here evaluates repository code.
"""
import hashlib
import itertools

_TABLE = {}


class T(object):
    __slots__ = ('op', 'args', 'h', 'skey')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.h

    def __lt__(self, other):
        return sort_key(self) < sort_key(other)


def raw(op, *args):
    key = (op,) + tuple((type(a).__name__, a) if not isinstance(a, T) else a for a in args)
    t = _TABLE.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.h = hash(key)
        t.skey = None
        _TABLE[key] = t
    return t


def _dig(x, h):
    if isinstance(x, T):
        h.update(b'T')
        h.update(sort_key(x))
    elif isinstance(x, tuple):
        h.update(b'(')
        for e in x:
            _dig(e, h)
        h.update(b')')
    elif isinstance(x, frozenset):
        h.update(b'{')
        for k in sorted(sort_key(e) if isinstance(e, T) else repr(e).encode() for e in x):
            h.update(k)
        h.update(b'}')
    else:
        h.update((type(x).__name__ + ':' + repr(x) + ';').encode('utf-8', 'surrogatepass'))


def sort_key(t):
    """Structural digest: a total order on terms that does not depend on construction order."""
    if t.skey is None:
        stack = [t]
        while stack:
            x = stack[-1]
            todo = [k for k in kids(x) if k.skey is None]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            if x.skey is None:
                h = hashlib.blake2b(x.op.encode(), digest_size=12)
                for a in x.args:
                    _dig(a, h)
                x.skey = h.digest()
    return t.skey


# ---------------------------------------------------------------------------------------------
# printing
# ---------------------------------------------------------------------------------------------

def show(x):
    if not isinstance(x, T):
        if isinstance(x, frozenset):
            return '{' + ', '.join(sorted(show(e) for e in x)) + '}'
        if isinstance(x, tuple):
            return '(' + ', '.join(show(e) for e in x) + ')'
        return repr(x) if not isinstance(x, str) else x
    op, a = x.op, x.args
    if op == 'const':
        return repr(a[1])
    if op == 'enum':
        return '%s.%s' % (a[0].split('.')[-1], a[1])
    if op == 'attr':
        return '%s.%s' % (show(a[0]), a[1])
    if op == 'item':
        return '%s[%s]' % (show(a[0]), show(a[1]))
    if op == 'idx':
        return '#%s' % a[0]
    if op == 'sym':
        return a[0]
    if op == 'memb':
        return '%s in %s' % (show(a[0]), show(a[1]))
    if op == 'and':
        return '(' + ' & '.join(show(e) for e in a) + ')'
    if op == 'or':
        return '(' + ' | '.join(show(e) for e in a) + ')'
    if op == 'not':
        return '!' + show(a[0])
    if op == 'tuple':
        return '(' + ', '.join(show(e) for e in a) + ',)'
    if op == 'lin':
        parts = ['%s*%s' % (c, show(t)) if c != 1 else show(t) for t, c in a[1]]
        if a[0] or not parts:
            parts.append(str(a[0]))
        return '(' + ' + '.join(parts) + ')'
    return '%s(%s)' % (op, ', '.join(show(e) for e in a))


# ---------------------------------------------------------------------------------------------
# constants
# ---------------------------------------------------------------------------------------------

def const(v):
    return raw('const', type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def enum(cls, name, value):
    return raw('enum', cls, name, value)


def top(reason):
    return raw('top', reason)


def sym(name, cls=None):
    return raw('sym', name, cls)


def is_const(t):
    return t.op == 'const'


def is_lit(t):
    return t.op in ('const', 'enum')


def cval(t):
    return t.args[1]


def is_num(t):
    return t.op == 'const' and t.args[0] in ('int', 'float')


def is_int(t):
    return t.op == 'const' and t.args[0] in ('int',)


def is_str(t):
    return t.op == 'const' and t.args[0] == 'str'


# ---------------------------------------------------------------------------------------------
# generic traversal
# ---------------------------------------------------------------------------------------------

def kids(t):
    for a in t.args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, (tuple, frozenset)):
            for b in _flat(a):
                yield b


def _flat(a):
    for b in a:
        if isinstance(b, T):
            yield b
        elif isinstance(b, (tuple, frozenset)):
            for c in _flat(b):
                yield c


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        stack.extend(kids(x))
    return seen


def contains_op(t, *ops):
    return any(x.op in ops for x in subterms(t))


def mentions(t, sub):
    return sub in subterms(t)


def _map_arg(a, f):
    if isinstance(a, T):
        return f(a)
    if isinstance(a, frozenset):
        return frozenset(_map_arg(b, f) for b in a)
    if isinstance(a, tuple):
        return tuple(_map_arg(b, f) for b in a)
    return a


def rewrite(t, f, memo=None):
    """Bottom-up rewriting; f(term) -> term or None, applied to rebuilt terms."""
    if memo is None:
        memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        new = x
        if x.args:
            args = tuple(_map_arg(a, go) for a in x.args)
            if args != x.args:
                new = mk(x.op, *args)
        r2 = f(new)
        r = new if r2 is None else r2
        memo[x] = r
        return r

    return go(t)


BINDERS = {'fmap': 1, 'exists': 1, 'sum': 1, 'psum': 1, 'firstidx': 1, 'fold': 1, 'while': 0, 'fix': 0, 'for': 1}
OUTER = {'fmap': (0,), 'exists': (0,), 'sum': (0,), 'psum': (0, 3), 'firstidx': (0,), 'fold': (0, 3), 'while': (), 'fix': (),
         'for': (0,)}
BOUND = frozenset(('idx', 'foldv', 'wv', 'fixpar', 'recval', 'recout', 'midloop', 'whilectx', 'lv', 'lvseq', 'acc', 'disc',
                   'discc'))
MARKERS = BOUND - {'idx'}
_DFREE = {}
_NOFREE = frozenset()


def dfree(x):
    """Binder names that occur free in x."""
    r = _DFREE.get(x)
    if r is not None:
        return r
    stack = [x]
    while stack:
        y = stack[-1]
        if y in _DFREE:
            stack.pop()
            continue
        todo = [k for k in kids(y) if k not in _DFREE]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        out = _NOFREE
        if y.op in BINDERS:
            p = BINDERS[y.op]
            for n, a in enumerate(y.args):
                if n == p:
                    continue
                f = _NOFREE
                for k in ([a] if isinstance(a, T) else _flat(a) if isinstance(a, (tuple, frozenset)) else []):
                    if _DFREE[k]:
                        f = f | _DFREE[k]
                if n not in OUTER[y.op] and y.args[p] in f:
                    f = f - {y.args[p]}
                if f:
                    out = out | f
        else:
            for k in kids(y):
                if _DFREE[k]:
                    out = out | _DFREE[k]
            if y.op in BOUND and y.args and isinstance(y.args[0], str):
                out = out | {y.args[0]}
        _DFREE[y] = out
    return _DFREE[x]


def subst(t, mapping):
    """mapping: term -> term; bound names are shadowed, and renamed where they would capture."""
    if not mapping:
        return t
    memo = dict(mapping)
    kfree = _NOFREE
    vfree = _NOFREE
    for k, v in mapping.items():
        if k.op in MARKERS:       # values of the variables of an unfinished loop: meant to be bound by it
            continue
        kfree |= dfree(k)
        vfree |= dfree(v)
    vfree = frozenset(b for b in vfree if b[0] == 'D')

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        new = x
        if x.args:
            if x.op in BINDERS and x.args[BINDERS[x.op]] in kfree | vfree:
                new = under(x)
            else:
                args = tuple(_map_arg(a, go) for a in x.args)
                if args != x.args:
                    new = mk(x.op, *args)
            if new is not x and new in mapping:
                new = mapping[new]
        memo[x] = new
        return new

    def under(x):
        p = BINDERS[x.op]
        b = x.args[p]
        inner = {k: v for k, v in mapping.items() if k.op in MARKERS or b not in dfree(k)} if b in kfree else mapping
        name = b
        ren = {}
        if b in vfree and any(b in dfree(v) for k, v in inner.items() if k.op not in MARKERS):
            name = fresh_lid()
            for a in x.args:
                for y in ([a] if isinstance(a, T) else _flat(a) if isinstance(a, (tuple, frozenset)) else []):
                    for z in subterms(y):
                        if z.op in BOUND and z.args and z.args[0] == b:
                            ren[z] = raw(z.op, name, *z.args[1:])
        args = []
        for n, a in enumerate(x.args):
            if n == p:
                args.append(name)
            elif n in OUTER[x.op]:
                args.append(_map_arg(a, go))
            else:
                args.append(_map_arg(a, lambda y: subst(subst(y, ren) if ren else y, inner)))
        args = tuple(args)
        return mk(x.op, *args) if args != x.args else x

    return go(t)


def mk(op, *args):
    f = SMART.get(op)
    if f is not None:
        return f(*args)
    return raw(op, *args)


# ---------------------------------------------------------------------------------------------
# conditions
# ---------------------------------------------------------------------------------------------

BOOL_OPS = {'fails', 'not', 'and', 'or', 'memb', 'eq', 'lt', 'le', 'in', 'isnone', 'truthy', 'nonempty', 'exists', 'is',
            'rematch', 'isinstance', 'startswith', 'endswith', 'excat'}


def is_bool(t):
    if t.op == 'const':
        return t.args[0] == 'bool'
    if t.op == 'ite':
        return is_bool(t.args[1]) and is_bool(t.args[2])
    return t.op in BOOL_OPS


_NOT = {}
_NARY = {}


def mk_not(c):
    r = _NOT.get(c)
    if r is None:
        r = _NOT[c] = _mk_not(c)
    return r


def _mk_not(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.args[0]
    if c.op == 'and':
        return mk_or(*[mk_not(x) for x in c.args])
    if c.op == 'or':
        return mk_and(*[mk_not(x) for x in c.args])
    if c.op == 'lt':
        return mk_le(c.args[1], c.args[0])
    if c.op == 'le':
        return mk_lt(c.args[1], c.args[0])
    if c.op == 'ite' and is_bool(c):
        return mk_ite(c.args[0], mk_not(c.args[1]), mk_not(c.args[2]))
    if not is_bool(c):
        c2 = truthy(c)
        if c2 is not c:
            return mk_not(c2)
    return raw('not', c)


def _memb_merge(parts, is_and):
    """Merge membership tests of one term in a conjunction/disjunction."""
    by = {}
    rest = []
    for p in parts:
        neg = p.op == 'not' and p.args[0].op == 'memb'
        m = p.args[0] if neg else p
        if m.op == 'memb':
            by.setdefault(m.args[0], []).append((neg, m.args[1]))
        else:
            rest.append(p)
    out = list(rest)
    for x, tests in by.items():
        pos = [s for neg, s in tests if not neg]
        negs = [s for neg, s in tests if neg]
        if is_and:
            if pos:
                s = frozenset.intersection(*pos)
                for n in negs:
                    s = s - n
                out.append(mk_memb(x, s))
            else:
                s = frozenset().union(*negs)
                out.append(raw('not', raw('memb', x, s)) if s else TRUE)
        else:
            if negs:
                s = frozenset.intersection(*negs)
                for n in pos:
                    s = s - n
                out.append(mk_not(mk_memb(x, s)))
            else:
                out.append(mk_memb(x, frozenset().union(*pos)))
    return out


def _nary(op, parts, unit, zero):
    flat = []
    for p in parts:
        if p.op == op:
            flat.extend(p.args)
        else:
            flat.append(p)
    flat = [p if is_bool(p) else truthy(p) for p in flat]
    seen = []
    s = set()
    for p in flat:
        if p is zero:
            return zero
        if p is unit or p in s:
            continue
        s.add(p)
        seen.append(p)
    if any(p.op == 'memb' or (p.op == 'not' and p.args[0].op == 'memb') for p in seen):
        merged = _memb_merge(seen, op == 'and')
        if any(p is zero for p in merged):
            return zero
        seen = []
        s = set()
        for p in merged:
            if p is unit or p in s:
                continue
            s.add(p)
            seen.append(p)
    for p in seen:
        if mk_not(p) in s:
            return zero
    # absorption  a & (a | b) = a ; a & (!a | b) = a & b
    other = 'or' if op == 'and' else 'and'
    changed = False
    out = []
    for p in seen:
        if p.op == other:
            if any(q in s for q in p.args):
                changed = True
                continue
            new = [q for q in p.args if mk_not(q) not in s]
            if len(new) != len(p.args):
                changed = True
                out.append(mk_or(*new) if other == 'or' else mk_and(*new))
                continue
        out.append(p)
    if changed:
        return _nary(op, out, unit, zero)
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    out.sort(key=sort_key)
    return raw(op, *out)


def mk_and(*parts):
    k = ('and',) + parts
    r = _NARY.get(k)
    if r is None:
        r = _NARY[k] = _nary('and', parts, TRUE, FALSE)
    return r


def mk_or(*parts):
    k = ('or',) + parts
    r = _NARY.get(k)
    if r is None:
        r = _NARY[k] = _nary('or', parts, FALSE, TRUE)
    return r


def mk_memb(x, s):
    if not s:
        return FALSE
    if is_lit(x):
        return TRUE if x in s else FALSE
    if x.op == 'ite':
        return mk_ite(x.args[0], mk_memb(x.args[1], s), mk_memb(x.args[2], s))
    if s == frozenset([NONE]):
        return mk_isnone(x)
    if x.op in ('tuple', 'list', 'dict', 'set', 'obj', 'ref') and all(is_lit(e) for e in s):
        return FALSE
    return raw('memb', x, s)


def mk_isnone(x):
    if x is NONE:
        return TRUE
    if x.op in ('const', 'enum', 'tuple', 'list', 'dict', 'set', 'obj', 'ref', 'lin', 'strcat', 'func', 'class',
                'join', 'resub', 'fmt', 'len') or is_bool(x):
        return FALSE
    if x.op == 'ite':
        return mk_ite(x.args[0], mk_isnone(x.args[1]), mk_isnone(x.args[2]))
    if x.op == 'first':     # first element of a sequence, None when empty
        return mk_not(mk_nonempty(x.args[0]))
    return raw('isnone', x)


IDENT = set()           # locations of objects whose class has no equality of its own: the same only as themselves


def mk_eq(a, b):
    if a is b and a.op != 'top':
        return TRUE
    if a.op == 'ref' and b.op == 'ref' and a.args[0] in IDENT and b.args[0] in IDENT:
        return FALSE
    if is_lit(a) and is_lit(b):
        if a.op == 'const' and b.op == 'const':
            try:
                return const(bool(cval(a) == cval(b)))
            except Exception:
                return raw('eq', a, b)
        if a.op == 'enum' and b.op == 'enum':
            return const(a.args[0] == b.args[0] and a.args[1] == b.args[1])
        # IntEnum member against a plain constant
        e, c = (a, b) if a.op == 'enum' else (b, a)
        if isinstance(e.args[2], int) and isinstance(cval(c), int):
            return const(e.args[2] == cval(c))
        return FALSE
    if is_lit(a):
        a, b = b, a
    if is_lit(b):
        if b is NONE:
            return mk_isnone(a)
        if b is TRUE and is_bool(a):
            return a
        if b is FALSE and is_bool(a):
            return mk_not(a)
        if is_int(b) and not isinstance(cval(b), bool):
            if a.op == 'len':
                if cval(b) == 0:
                    return mk_not(mk_nonempty(a.args[0]))
            if a.op == 'lin':
                return _cmp_lin('eq', a, b)
        return mk_memb(a, frozenset([b]))
    if a.op == 'tuple' and b.op == 'tuple':
        if len(a.args) != len(b.args):
            return FALSE
        return mk_and(*[mk_eq(x, y) for x, y in zip(a.args, b.args)])
    if a.op == 'ite' and is_lit(a.args[1]) and is_lit(a.args[2]):
        return mk_ite(a.args[0], mk_eq(a.args[1], b), mk_eq(a.args[2], b))
    if b.op == 'ite' and is_lit(b.args[1]) and is_lit(b.args[2]):
        return mk_ite(b.args[0], mk_eq(a, b.args[1]), mk_eq(a, b.args[2]))
    if DISTINCT[0] and other_call(a, b):
        return FALSE
    if sort_key(b) < sort_key(a):
        a, b = b, a
    return raw('eq', a, b)


def _cmp_lin(op, a, b):
    """Canonical comparison of linear forms: move everything to the left."""
    d = lin_sub(a, b)
    c, parts = lin_parts(d)
    if not parts:
        if op == 'eq':
            return const(c == 0)
        if op == 'lt':
            return const(c < 0)
        return const(c <= 0)
    if len(parts) == 1 and parts[0][1] in (1, -1):
        t, k = parts[0]
        # t*k + c  op 0
        if op == 'eq':
            return mk_memb(t, frozenset([const(-c * k)])) if t.op != 'len' or -c * k != 0 else \
                mk_not(mk_nonempty(t.args[0]))
        if t.op == 'len' and isinstance(c, int):
            # k=1: len + c (<|<=) 0 ; k=-1: -len + c (<|<=) 0
            bound = c if k == -1 else -c
            if k == -1:      # len > c / len >= c
                lo = bound + 1 if op == 'lt' else bound
                if lo <= 0:
                    return TRUE
                if lo == 1:
                    return mk_nonempty(t.args[0])
                return raw('le', const(lo), t)
            hi = bound - 1 if op == 'lt' else bound
            if hi < 0:
                return FALSE
            if hi == 0:
                return mk_not(mk_nonempty(t.args[0]))
            return raw('le', t, const(hi))
        if k == 1:
            return raw(op, t, const(-c))
        return raw(op, const(c), t)
    if op == 'eq':
        return raw('memb', d, frozenset([const(0)])) if sort_key(d) <= sort_key(lin_scale(d, -1)) else \
            raw('memb', lin_scale(d, -1), frozenset([const(0)]))
    pos = mk_lin(0, [(t, k) for t, k in parts if k > 0])
    neg = mk_lin(0, [(t, -k) for t, k in parts if k < 0])
    # pos - neg + c op 0   ->  pos op neg - c
    return raw(op, pos, lin_add(neg, const(-c)))


def mk_lt(a, b):
    if is_num(a) and is_num(b):
        return const(cval(a) < cval(b))
    if numeric(a) or numeric(b):
        return _cmp_lin('lt', a, b)
    return raw('lt', a, b)


def mk_le(a, b):
    if is_num(a) and is_num(b):
        return const(cval(a) <= cval(b))
    if numeric(a) or numeric(b):
        return _cmp_lin('le', a, b)
    return raw('le', a, b)


def numeric(t):
    return is_num(t) or t.op in ('len', 'lin', 'idx', 'sum', 'psum')


def mk_nonempty(s):
    """Sequence / mapping / string term is not empty."""
    op = s.op
    if op in ('list', 'set', 'dict'):
        return seq_nonempty(s.args[0])
    if op == 'tuple':
        return const(bool(s.args))
    if op == 'const':
        return const(bool(cval(s)))
    if op == 'ite':
        return mk_ite(s.args[0], mk_nonempty(s.args[1]), mk_nonempty(s.args[2]))
    if op in ('sorted', 'reversed', 'enumerate', 'tolist', 'shuffled'):
        return mk_nonempty(s.args[0])
    if op == 'values' or op == 'keys' or op == 'items':
        return mk_nonempty(s.args[0])
    if op in SEQ_OPS:
        return seq_nonempty(s)
    return raw('nonempty', s)


def truthy(t):
    if t.op == 'const':
        return const(bool(cval(t)))
    if is_bool(t):
        return t
    op = t.op
    if op == 'enum':
        v = t.args[2]
        return const(bool(v)) if isinstance(v, int) else TRUE
    if op in ('list', 'set', 'dict', 'tuple', 'sorted', 'reversed', 'tolist'):
        return mk_nonempty(t)
    if op == 'len':
        return mk_nonempty(t.args[0])
    if op == 'ite':
        return mk_ite(t.args[0], truthy(t.args[1]), truthy(t.args[2]))
    if op in ('func', 'class', 'bound', 'regex', 'module'):
        return TRUE
    if op == 'obj':
        return TRUE
    if op == 'first' or op == 'optobj':
        return mk_not(mk_isnone(t))
    if op == 'lin' or op == 'mod':
        return mk_not(mk_eq(t, const(0)))
    if op in ('children', 'allkids'):
        return mk_nonempty(t)
    return raw('truthy', t)


def mk_intdiv(op, a, b):
    """a // b or a % b"""
    if is_int(a) and is_int(b) and cval(b) != 0:
        return const(cval(a) // cval(b) if op == 'floordiv' else cval(a) % cval(b))
    if a.op == 'ite' and is_int(b) and cval(b) != 0 and all(is_int(x) or x.op == 'ite' for x in a.args[1:]):
        return mk_ite(a.args[0], mk_intdiv(op, a.args[1], b), mk_intdiv(op, a.args[2], b))
    return raw(op, a, b)


def mk_in(x, c):
    """x in c"""
    if c.op in ('set', 'list', 'dict'):
        parts = flat_ones(c.args[0])
        if parts is not None:
            if c.op == 'dict':
                parts = [upd_key(p) for p in parts]
            if all(is_lit(p) for p in parts):
                return mk_memb(x, frozenset(parts))
            return mk_or(*[mk_eq(x, p) for p in parts])
        return raw('in', x, c)
    if c.op == 'tuple':
        if all(is_lit(p) for p in c.args):
            return mk_memb(x, frozenset(c.args))
        return mk_or(*[mk_eq(x, p) for p in c.args])
    if c.op == 'ite':
        return mk_ite(c.args[0], mk_in(x, c.args[1]), mk_in(x, c.args[2]))
    if c.op == 'keys':
        return mk_in(x, c.args[0])
    if is_const(c) and is_const(x):
        try:
            return const(cval(x) in cval(c))
        except Exception:
            pass
    if c.op == 'enumclass':
        return raw('in', x, c)
    return raw('in', x, c)


def mk_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if not is_bool(c):
        c = truthy(c)
        if c is TRUE:
            return a
        if c is FALSE:
            return b
    if c.op == 'not':
        return mk_ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return mk_not(c)
    if is_bool(a) and is_bool(b):
        if a is TRUE:
            return mk_or(c, b)
        if a is FALSE:
            return mk_and(mk_not(c), b)
        if b is FALSE:
            return mk_and(c, a)
        if b is TRUE:
            return mk_or(mk_not(c), a)
    # nested on the same condition
    if a.op == 'ite' and a.args[0] is c:
        return mk_ite(c, a.args[1], b)
    if b.op == 'ite' and b.args[0] is c:
        return mk_ite(c, a, b.args[2])
    if a.op == 'ite' and a.args[2] is b:     # ite(c, ite(d, x, b), b)
        return mk_ite(mk_and(c, a.args[0]), a.args[1], b)
    if b.op == 'ite' and b.args[1] is a:     # ite(c, a, ite(d, a, y))
        return mk_ite(mk_or(c, b.args[0]), a, b.args[2])
    if a.op in LISTY and b.op in LISTY and a.op == b.op:
        return mk(a.op, seq_ite(c, a.args[0], b.args[0]))
    if a.op in SEQ_OPS or b.op in SEQ_OPS:
        return seq_ite(c, a, b)
    if c.op in ('lt', 'le') and sort_key(mk_not(c)) < sort_key(c):
        return raw('ite', mk_not(c), b, a)
    return raw('ite', c, a, b)


# ---------------------------------------------------------------------------------------------
# linear integer forms
# ---------------------------------------------------------------------------------------------

def lin_parts(t):
    if t.op == 'lin':
        return t.args[0], list(t.args[1])
    if is_num(t) and not isinstance(cval(t), bool):
        return cval(t), []
    return 0, [(t, 1)]


def mk_lin(c, parts):
    acc = {}
    for t, k in parts:
        if t.op == 'lin':
            c2, p2 = lin_parts(t)
            c += c2 * k
            for t2, k2 in p2:
                acc[t2] = acc.get(t2, 0) + k * k2
        elif is_num(t):
            c += cval(t) * k
        else:
            acc[t] = acc.get(t, 0) + k
    items = tuple(sorted(((t, k) for t, k in acc.items() if k != 0), key=lambda x: sort_key(x[0])))
    if not items:
        return const(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return raw('lin', c, items)


def lin_add(a, b):
    return mk_lin(0, [(a, 1), (b, 1)])


def lin_sub(a, b):
    return mk_lin(0, [(a, 1), (b, -1)])


def lin_scale(a, k):
    return mk_lin(0, [(a, k)])


# ---------------------------------------------------------------------------------------------
# sequences
#   seq terms:  cat(parts...) ; one(v) ; spread(term) ; fmap(src, lid, seq) ; site(c, seq, seq)
#   list values: list(seq), set(seq), dict(seq of pair tuples)
# ---------------------------------------------------------------------------------------------

LISTY = ('list', 'set', 'dict')
SEQ_OPS = ('cat', 'one', 'spread', 'fmap', 'site', 'lvseq')

EMPTY = raw('cat')


def one(v):
    return raw('one', v)


def cat_parts(s):
    return list(s.args) if s.op == 'cat' else [s]


def mk_cat(*parts):
    out = []
    for p in parts:
        if p.op == 'cat':
            out.extend(p.args)
        else:
            out.append(p)
    if len(out) == 1:
        return out[0]
    return raw('cat', *out)


def mk_spread(t):
    """Sequence of the elements of the value t."""
    if t.op == 'list':
        return t.args[0]
    if t.op == 'set':
        f = flat_ones(t.args[0])
        return t.args[0] if f is not None and len(f) <= 1 else raw('spread', t)
    if t.op == 'tuple':
        return mk_cat(*[one(x) for x in t.args])
    if t.op == 'ite':
        return seq_ite(t.args[0], mk_spread(t.args[1]), mk_spread(t.args[2]))
    if t.op == 'tolist':
        return mk_spread(t.args[0])
    if t.op in ('values', 'keys', 'items') and t.args[0].op == 'dict':
        pass
    if t.op in SEQ_OPS:
        return t
    return raw('spread', t)


def seq_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    pa, pb = cat_parts(a), cat_parts(b)
    i = 0
    while i < len(pa) and i < len(pb) and pa[i] is pb[i]:
        i += 1
    pre = pa[:i]
    pa, pb = pa[i:], pb[i:]
    j = 0
    while j < len(pa) and j < len(pb) and pa[-1 - j] is pb[-1 - j]:
        j += 1
    post = pa[len(pa) - j:] if j else []
    if j:
        pa, pb = pa[:-j], pb[:-j]
    ma, mb = mk_cat(*pa), mk_cat(*pb)
    if ma is EMPTY and mb is EMPTY:
        mid = EMPTY
    else:
        if c.op == 'not':
            c, ma, mb = c.args[0], mb, ma
        if ma.op == 'one' and mb.op == 'one':
            mid = one(mk_ite(c, ma.args[0], mb.args[0]))
        elif ma.op == 'site' and ma.args[2] is mb:
            mid = seq_ite(mk_and(c, ma.args[0]), ma.args[1], mb)
        elif mb.op == 'site' and mb.args[1] is ma:
            mid = seq_ite(mk_or(c, mb.args[0]), ma, mb.args[2])
        elif ma.op == 'fmap' and mb is EMPTY and c is mk_nonempty_src(ma.args[0]):
            mid = ma
        elif ma.op == 'site' and ma.args[0] is c:
            mid = seq_ite(c, ma.args[1], mb)
        elif mb.op == 'site' and mb.args[0] is c:
            mid = seq_ite(c, ma, mb.args[2])
        elif sort_key(mk_not(c)) < sort_key(c):
            mid = raw('site', mk_not(c), mb, ma)
        else:
            mid = raw('site', c, ma, mb)
    return mk_cat(*(pre + [mid] + post))


def mk_nonempty_src(s):
    return mk_nonempty(s)


def mk_fmap(src, lid, body):
    """Concatenation of body over the index space of src; idx(lid) is the index."""
    if body is EMPTY:
        return EMPTY
    src = canon_src(src)
    # eta: [x for x in S]
    if body.op == 'one' and body.args[0] is raw('item', src, idx(lid)):
        return mk_spread(src)
    # known sources unroll in the interpreter; here only fuse
    if src.op == 'list':
        s = src.args[0]
        if s is EMPTY:
            return EMPTY
        if s.op == 'fmap' and not uses_index(body, lid, src):
            # nested: for x in [f(y) for y in S for ...]
            l2 = fresh_lid()
            inner = subst(s.args[2], {idx(s.args[1]): idx(l2)})
            b2 = over_seq(inner, lambda v: subst_item(body, src, lid, v))
            if b2 is not None:
                return mk_fmap(s.args[0], l2, b2)
    return raw('fmap', src, lid, body)


def uses_index(body, lid, src):
    """idx(lid) used otherwise than as src[idx(lid)]?"""
    it = raw('item', src, idx(lid))
    marker = sym('$elem%s' % lid)
    b = subst(body, {it: marker})
    return mentions(b, idx(lid))


def subst_item(body, src, lid, v):
    return subst(body, {raw('item', src, idx(lid)): v})


def over_seq(s, f):
    """Apply f to every element value of seq s and concatenate the resulting seqs."""
    if s.op == 'one':
        return f(s.args[0])
    if s.op == 'cat':
        out = []
        for p in s.args:
            r = over_seq(p, f)
            if r is None:
                return None
            out.append(r)
        return mk_cat(*out)
    if s.op == 'site':
        a, b = over_seq(s.args[1], f), over_seq(s.args[2], f)
        if a is None or b is None:
            return None
        return seq_ite(s.args[0], a, b)
    if s.op == 'spread':
        l = fresh_lid()
        r = f(mk_item(s.args[0], idx(l)))
        return None if r is None else mk_fmap(s.args[0], l, r)
    if s.op == 'fmap':
        l = fresh_lid()
        r = over_seq(subst(s.args[2], {idx(s.args[1]): idx(l)}), f)
        return None if r is None else mk_fmap(s.args[0], l, r)
    return None


def canon_src(src):
    """Canonical value whose index space the loop runs over (length-preserving wrappers stripped)."""
    while True:
        if src.op in ('enumerate', 'tolist'):
            src = src.args[0]
        elif src.op == 'list' and src.args[0].op == 'fmap' and src.args[0].args[2].op == 'one':
            src = src.args[0].args[0]
        elif src.op == 'list' and src.args[0].op == 'spread':
            src = src.args[0].args[0]
        elif src.op == 'zip':
            cs = [canon_src(a) for a in src.args]
            cs = [c for c in cs if c.op != 'repeat']
            if cs and all(c is cs[0] for c in cs):
                src = cs[0]
            else:
                return src
        elif src.op == 'nparray':
            src = src.args[0]
        elif src.op == 'item' and is_int(src.args[1]) and cval(src.args[1]) > 0 and columns(src.args[0]):
            src = mk_item(src.args[0], const(0))
        elif src.op in ('values', 'items'):
            return raw('keys', src.args[0])
        elif src.op == 'reversed':
            v = src.args[0]
            while v.op == 'list' and v.args[0].op == 'spread':
                v = v.args[0].args[0]
            if v.op in ('values', 'items', 'keys'):
                return raw('reversed', raw('list', raw('spread', raw('keys', v.args[0]))))
            return src
        elif src.op == 'krow_batch':      # keras predict: one row per input row
            src = src.args[0]
        elif src.op == 'range':
            lo, hi, st = src.args
            if lo is const(0) and st is const(1) and hi.op == 'len':
                src = hi.args[0]
            else:
                return src
        else:
            return src


def columns(t):
    """The transposition of a list of rows: its columns are equally long."""
    while t.op in ('iterator', 'spread', 'tolist') or t.op == 'list' and t.args[0].op == 'spread':
        t = t.args[0]
    return t.op == 'unzip'


_LID = itertools.count(1)


def fresh_lid():
    return 'M%d' % next(_LID)


def idx(lid):
    return raw('idx', lid)


def seq_nonempty(s):
    if s.op == 'one':
        return TRUE
    if s.op == 'cat':
        return mk_or(*[seq_nonempty(p) for p in s.args]) if s.args else FALSE
    if s.op == 'spread':
        return mk_nonempty(s.args[0])
    if s.op == 'site':
        return mk_ite(s.args[0], seq_nonempty(s.args[1]), seq_nonempty(s.args[2]))
    if s.op == 'fmap':
        if seq_nonempty(s.args[2]) is TRUE:
            return mk_nonempty(s.args[0])
        return mk_exists(s.args[0], s.args[1], seq_nonempty(s.args[2]))
    return raw('nonempty', s)


def mk_exists(src, lid, c):
    if c is FALSE:
        return FALSE
    if c is TRUE:
        return mk_nonempty(src)
    src = canon_src(src)
    if c.op == 'and':
        free = [p for p in c.args if not mentions(p, idx(lid))]
        if free:
            rest = [p for p in c.args if mentions(p, idx(lid))]
            return mk_and(*(free + [mk_exists(src, lid, mk_and(*rest))]))
    # x == S[i] for some i   ->  x in S
    it = raw('item', src, idx(lid))
    if c.op == 'eq':
        a, b = c.args
        if a is it and not mentions(b, idx(lid)):
            return mk_in(b, src)
        if b is it and not mentions(a, idx(lid)):
            return mk_in(a, src)
    return raw('exists', src, lid, c)


def flat_ones(s):
    """Element values when the sequence is fully known, else None."""
    out = []
    for p in cat_parts(s):
        if p.op == 'one':
            out.append(p.args[0])
        else:
            return None
    return out


def mk_len(t):
    if t.op == 'tuple':
        return const(len(t.args))
    if t.op == 'const':
        try:
            return const(len(cval(t)))
        except TypeError:
            return raw('len', t)
    if t.op == 'list' or t.op in SEQ_OPS:
        return seq_len(t.args[0] if t.op == 'list' else t)
    if t.op == 'keys':
        return mk_len(t.args[0])
    if t.op == 'dict' or t.op == 'set':
        parts = flat_ones(t.args[0])
        if parts is not None:
            ks = [upd_key(p) if t.op == 'dict' else p for p in parts]
            if all(is_lit(k) for k in ks):
                return const(len(set(ks)))
        return raw('len', t)
    if t.op in ('enumerate', 'tolist', 'sorted', 'reversed', 'nparray'):
        return mk_len(t.args[0])
    if t.op == 'ite':
        return mk_ite(t.args[0], mk_len(t.args[1]), mk_len(t.args[2]))
    if t.op == 'strcat':
        return mk_lin(0, [(mk_len(a), 1) for a in t.args])
    if t.op == 'zip':
        c = canon_src(t)
        if c.op != 'zip':
            return mk_len(c)
    if t.op == 'range':
        lo, hi, st = t.args
        if st is const(1) and lo is const(0) and (numeric(hi)):
            return hi
    if t.op == 'linspace':
        return t.args[2]
    if t.op == 'enumclass':
        return raw('len', t)
    return raw('len', t)


def seq_len(s):
    if s.op == 'one':
        return const(1)
    if s.op == 'cat':
        return mk_lin(0, [(seq_len(p), 1) for p in s.args])
    if s.op == 'spread':
        return mk_len(s.args[0])
    if s.op == 'fmap' and s.args[2].op == 'one':
        return mk_len(s.args[0])
    if s.op == 'site':
        a, b = seq_len(s.args[1]), seq_len(s.args[2])
        if a is b:
            return a
        return raw('ite', s.args[0], a, b)
    return raw('len', raw('list', s))


UPD = ('app', 'appset', 'inc')


def guarded_ones(x, c=None):
    """[(condition, item)] of a sequence of known items, None for any other."""
    c = TRUE if c is None else c
    out = []
    for p in cat_parts(x):
        if p.op == 'one':
            out.append((c, p.args[0]))
        elif p.op == 'site':
            a, b = guarded_ones(p.args[1], mk_and(c, p.args[0])), guarded_ones(p.args[2], mk_and(c, mk_not(p.args[0])))
            if a is None or b is None:
                return None
            out += a + b
        else:
            return None
    return out


def upd_key(p):
    """First key an update entry of a dict is about."""
    if p.op in UPD:
        return p.args[0].args[0] if p.args[0].op == 'path' else p.args[0]
    if p.op == 'tuple':
        return p.args[0]
    return mk_item(p, const(0))


def mm_kinds(s):
    """Kinds of the update entries of a dict content (None: not a plain multimap)."""
    if s.op == 'one':
        p = s.args[0]
        if p.op in UPD:
            return {(p.op, len(p.args[0].args) if p.args[0].op == 'path' else 1)}
        return None
    if s.op in ('cat', 'site', 'fmap'):
        out = set()
        for x in (s.args if s.op == 'cat' else s.args[1:] if s.op == 'site' else s.args[2:]):
            k = mm_kinds(x)
            if k is None:
                return None
            out |= k
        return out
    return None


def mm_item(content, key):
    """Value a multimap built by app/inc updates holds under a key it contains."""
    ks = mm_kinds(content)
    if not ks or len(ks) > 1:
        return None
    kind, depth = next(iter(ks))

    def f(p):
        if depth == 1:
            v = p.args[1]
        elif depth == 2:
            v = raw(kind, p.args[0].args[1], p.args[1])
        else:
            v = raw(kind, raw('path', *p.args[0].args[1:]), p.args[1])
        return seq_ite(mk_eq(upd_key(p), key), one(v), EMPTY)

    s = over_seq(content, f)
    if s is None:
        return None
    if depth > 1:
        return raw('dict', s)
    if kind == 'app':
        return raw('list', s)
    if kind == 'appset':
        return raw('set', s)
    return raw('sumof', s)


DISTINCT = [False]      # arguments x and x_1 of two calls are taken to differ (see the rule on histories)


def other_call(a, b):
    return a.op == 'sym' and b.op == 'sym' and (a.args[0] == b.args[0] + '_1' or b.args[0] == a.args[0] + '_1')


def assoc(content, key):
    """The value under a key of a dict, from the last pair stored back to the first one that may have another key: None when
    nothing can be said."""
    ps = cat_parts(content)
    n = len(ps)
    if not n:
        return raw('item', raw('dict', EMPTY), key)
    while n:
        p = ps[n - 1]
        if p.op == 'site':
            rest = mk_cat(*ps[:n - 1])
            r = [assoc(mk_cat(rest, b), key) for b in p.args[1:]]
            if r[0] is not None and r[0] is r[1]:
                return r[0]
            # a key that is missing in one case: what is read there is an error of its own
            for x, z in (r, r[::-1]):
                if x is not None and x.op == 'item' and x.args[0].op == 'dict' and x.args[0].args[0] is EMPTY and z is not None:
                    return z
            if None in r or any(x.op == 'item' and x.args[0].op == 'dict' for x in r):
                break
            return mk_ite(p.args[0], *r)
        if p.op != 'one' or p.args[0].op != 'tuple' or len(p.args[0].args) != 2:
            break
        e = mk_eq(p.args[0].args[0], key)
        if e is TRUE:
            return p.args[0].args[1]
        if e is not FALSE:
            break
        n -= 1
    if n == 1 and ps[0].op == 'spread' and ps[0].args[0].op == 'items':
        return mk_item(ps[0].args[0].args[0], key)
    return None if n == len(ps) else raw('item', raw('dict', mk_cat(*ps[:n])), key)


def mk_item(base, key):
    op = base.op
    if op == 'ite':
        a, b = mk_item(base.args[1], key), mk_item(base.args[2], key)
        if not (a.op == 'item' and b.op == 'item' and a.args[0] is base.args[1]):
            return mk_ite(base.args[0], a, b)
        return raw('item', base, key)
    if key.op == 'ite' and is_lit(key.args[1]) and is_lit(key.args[2]):
        return mk_ite(key.args[0], mk_item(base, key.args[1]), mk_item(base, key.args[2]))
    if is_int(key):
        k = cval(key)
        if op == 'tuple':
            if -len(base.args) <= k < len(base.args):
                return base.args[k]
        if op == 'list':
            ps = cat_parts(base.args[0])
            if k >= 0:
                if all(p.op == 'one' for p in ps[:k + 1]) and len(ps) > k:
                    return ps[k].args[0]
            else:
                if len(ps) >= -k and all(p.op == 'one' for p in ps[k:]):
                    return ps[k].args[0]
        if op == 'const' and isinstance(cval(base), (str, tuple)):
            try:
                return const(cval(base)[k])
            except IndexError:
                return top('index out of range')
    if op == 'dict' and is_lit(key):
        ps = flat_ones(base.args[0])
        if ps is not None and all(p.op == 'tuple' and is_lit(p.args[0]) for p in ps):
            for p in reversed(ps):
                if mk_eq(p.args[0], key) is TRUE:
                    return p.args[1]
    if op == 'dict':
        r = mm_item(base.args[0], key)
        if r is None:
            r = assoc(base.args[0], key)
        if r is not None:
            return r
        ps = None if is_lit(key) else flat_ones(base.args[0])
        if ps and len(ps) <= 8 and all(p.op == 'tuple' and len(p.args) == 2 and is_lit(p.args[0]) for p in ps):
            # a table with constant keys
            r = raw('item', raw('dict', EMPTY), key)
            for p in ps:
                r = mk_ite(mk_eq(key, p.args[0]), p.args[1], r)
            return r
    if op in ('values', 'items') and not is_lit(key):
        k = raw('item', raw('keys', base.args[0]), key)
        v = mk_item(base.args[0], k)
        return v if op == 'values' else raw('tuple', k, v)
    if op == 'reversed' and not is_lit(key):
        v = base.args[0]
        while v.op == 'list' and v.args[0].op == 'spread':
            v = v.args[0].args[0]
        if v.op in ('values', 'items'):
            k = raw('item', raw('reversed', raw('list', raw('spread', raw('keys', v.args[0])))), key)
            x = mk_item(v.args[0], k)
            return x if v.op == 'values' else raw('tuple', k, x)
    if op == 'zip':
        return raw('tuple', *[mk_item(a, key) for a in base.args])
    if op == 'enumerate':
        return raw('tuple', lin_add(key, base.args[1]) if len(base.args) > 1 else key, mk_item(base.args[0], key))
    if op == 'repeat':
        return base.args[0]
    if op == 'sorted' and key is const(0) and len(base.args) == 3 and base.args[2] in (TRUE, FALSE):
        return mk_extreme('minof' if base.args[2] is FALSE else 'maxof', base.args[0], base.args[1])
    if op in ('tolist', 'nparray'):
        return mk_item(base.args[0], key)
    if op == 'unzip':
        l = fresh_lid()
        return raw('list', mk_fmap(base.args[0], l, one(mk_item(mk_item(base.args[0], idx(l)), key))))
    if op == 'range' and (key.op in ('idx', 'lin') or (is_int(key) and cval(key) >= 0)):
        lo, hi, st = base.args
        if is_int(st):
            return mk_lin(0, [(lo, 1), (key, cval(st))])
        if lo is const(0):
            return mk_mul(st, key)
    if op == 'list' and not is_int(key):
        s = base.args[0]
        if s.op == 'fmap' and s.args[2].op == 'one':
            return subst(s.args[2].args[0], {idx(s.args[1]): key})
        if s.op == 'spread':
            return mk_item(s.args[0], key)
    if op == 'list' and is_int(key) and cval(key) == 0:
        s = base.args[0]
        if s.op == 'fmap' and s.args[2].op == 'one':
            return subst(s.args[2].args[0], {idx(s.args[1]): key})
    if op == 'list' and is_int(key) and base.args[0].op == 'spread':
        return mk_item(base.args[0].args[0], key)
    if op == 'krow_batch':
        return raw('krow', base.args[1], raw('tuple', *[mk_item(a, key) for a in base.args[0:1] + base.args[2:]]))
    return raw('item', base, key)


def mk_extreme(op, l, key):
    """max([f(x) for x in s], key=k) is f(max(s, key=k of f))"""
    k = raw('karg')
    s = l.args[0] if l.op == 'list' else None
    if key is not NONE and s is not None and s.op == 'fmap' and s.args[2].op == 'one':
        src, lid, body = s.args[0], s.args[1], s.args[2].args[0]
        if not uses_index(body, lid, src):
            m = mk_extreme(op, raw('list', mk_spread(src)), subst(key, {k: subst_item(body, src, lid, k)}))
            return subst_item(body, src, lid, m)
    return raw(op, l, key)


def mk_mul(a, b):
    if is_num(a) and is_num(b):
        return const(cval(a) * cval(b))
    if is_num(a) and not isinstance(cval(a), float):
        return lin_scale(b, cval(a))
    if is_num(b) and not isinstance(cval(b), float):
        return lin_scale(a, cval(b))
    if sort_key(b) < sort_key(a):
        a, b = b, a
    return raw('mul', a, b)


def mk_strcat(*parts):
    out = []
    for p in parts:
        if p.op == 'str' and len(parts) > 1:
            p = p.args[0]
        if p.op == 'strcat':
            out.extend(p.args)
        elif is_str(p) and cval(p) == '':
            continue
        else:
            out.append(p)
    merged = []
    for p in out:
        if merged and is_str(p) and is_str(merged[-1]):
            merged[-1] = const(cval(merged[-1]) + cval(p))
        else:
            merged.append(p)
    if not merged:
        return const('')
    if len(merged) == 1 and stringy(merged[0]):
        return merged[0]
    return raw('strcat', *merged)


def stringy(t):
    if t.op == 'const':
        return t.args[0] == 'str'
    if t.op == 'ite':
        return stringy(t.args[1]) and stringy(t.args[2])
    return t.op in ('strcat', 'join', 'resub', 'str', 'strm')


def near_end(base, k):
    """s[len(s) - 1], s[len(s) - 2] as a bound: as s[-1], s[-2] whatever the length of s"""
    if k.op == 'lin' and k.args[0] in (-1, -2) and len(k.args[1]) == 1 and k.args[1][0][1] == 1 and \
            k.args[1][0][0] is raw('len', base):
        return const(k.args[0])
    return k


def value_arity(s):
    """Length of the tuples that are the values of a dict content (None: not tuples of one length)."""
    if s.op == 'one':
        p = s.args[0]
        if p.op == 'tuple' and len(p.args) == 2 and p.args[1].op == 'tuple':
            return len(p.args[1].args)
        return None
    if s.op in ('cat', 'site', 'fmap'):
        ns = set(value_arity(x) for x in (s.args if s.op == 'cat' else s.args[1:] if s.op == 'site' else s.args[2:])
                 if x is not EMPTY)
        return ns.pop() if len(ns) == 1 else None
    return None


def most(s):
    """The greatest length of a sequence, or None."""
    if s.op == 'one':
        return 1
    if s.op == 'cat':
        ns = [most(p) for p in s.args]
        return None if None in ns else sum(ns)
    if s.op == 'site':
        ns = [most(p) for p in s.args[1:]]
        return None if None in ns else max(ns)
    return None


def mk_slice(base, lo, hi, step):
    if lo is const(0):
        lo = NONE
    if base.op == 'item' and base.args[0].op == 'dict':
        n = value_arity(base.args[0].args[0])
        if n:
            base = raw('tuple', *[raw('item', base, const(i)) for i in range(n)])
    if step is NONE:
        lo, hi = near_end(base, lo), near_end(base, hi)
        if hi is raw('len', base):
            hi = NONE
    if lo is NONE and hi is NONE and step is NONE and base.op in ('tuple', 'const'):
        return base
    if step is NONE and (lo is NONE or is_int(lo)) and (hi is NONE or is_int(hi)):
        a = cval(lo) if lo is not NONE else None
        b = cval(hi) if hi is not NONE else None
        if base.op == 'tuple':
            return raw('tuple', *base.args[a:b])
        if base.op == 'const' and isinstance(cval(base), (str, bytes)):
            return const(cval(base)[a:b])
        if base.op == 'list':
            ps = cat_parts(base.args[0])
            if all(p.op == 'one' for p in ps):
                return raw('list', mk_cat(*ps[a:b]))
            n = most(base.args[0])
            if n is not None and (a is None or a < 0 and n <= -a) and (b is None or b >= n):
                return base
            if a and a > 0 and b is None and len(ps) >= a and all(p.op == 'one' for p in ps[:a]):
                return raw('list', mk_cat(*ps[a:]))
            if a is None and b is not None and b < 0 and len(ps) >= -b and all(p.op == 'one' for p in ps[b:]):
                return raw('list', mk_cat(*ps[:b]))
    if base.op == 'ite' and base.args[1].op in ('tuple', 'list') and base.args[2].op in ('tuple', 'list'):
        return mk_ite(base.args[0], mk_slice(base.args[1], lo, hi, step), mk_slice(base.args[2], lo, hi, step))
    return raw('slice', base, lo, hi, step)


def mk_truthy(t):
    return truthy(t)


def mk_list(s):
    return raw('list', s)


SMART = {
    'not': mk_not, 'and': mk_and, 'or': mk_or, 'memb': mk_memb, 'isnone': mk_isnone, 'eq': mk_eq, 'lt': mk_lt,
    'le': mk_le, 'nonempty': mk_nonempty, 'truthy': mk_truthy, 'in': mk_in, 'ite': mk_ite, 'cat': mk_cat,
    'spread': mk_spread, 'site': seq_ite, 'fmap': mk_fmap, 'exists': mk_exists, 'len': mk_len, 'item': mk_item,
    'mul': mk_mul, 'strcat': mk_strcat, 'slice': mk_slice, 'lin': mk_lin,
}


# ---------------------------------------------------------------------------------------------
# alpha-normal form and three-valued evaluation
# ---------------------------------------------------------------------------------------------

def alpha(t):
    """Rename loop ids in order of first occurrence."""
    names = {}

    def go(x):
        if not isinstance(x, T):
            if isinstance(x, tuple):
                return tuple(go(e) for e in x)
            if isinstance(x, frozenset):
                return frozenset(go(e) for e in x)
            return x
        if x.op == 'idx':
            return raw('idx', names.setdefault(x.args[0], 'a%d' % len(names)))
        if x.op in ('fmap', 'exists'):
            src = go(x.args[0])
            n = names.setdefault(x.args[1], 'a%d' % len(names))
            return raw(x.op, src, n, go(x.args[2]))
        if not x.args:
            return x
        return raw(x.op, *[go(a) for a in x.args])

    return go(t)


def assume(t, facts):
    """Simplify t under facts: dict term -> literal term (e.g. node.tag -> Tag.NOUN)."""
    return subst(t, facts)


def conj_parts(c):
    if c.op == 'and':
        return list(c.args)
    if c is TRUE:
        return []
    return [c]
