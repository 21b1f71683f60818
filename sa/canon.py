"""Canonical form of value-flow terms.

Two summaries that denote the same function of the inputs should meet in one term:
  * binders (loop indices) are named by their height,
  * conditions become reduced ordered decision diagrams over literal tests (V), integer thresholds (N) and opaque
    propositions (B),
  * sequences become rows (guard, value) inside loops, with guards pushed to the rows,
  * conditions are lifted out of strict operations and pushed into constructors.
Everything is symbolic; nothing is evaluated on sample inputs.
"""
import re

from . import terms as tm
from .terms import (T, raw, const, NONE, TRUE, FALSE, EMPTY, is_lit, is_const, is_int, is_num, cval, idx, subterms, kids,
                    sort_key, mk_cat, seq_ite, one, mk_fmap, mk_memb, mk_ite, subst, mentions)

BINDERS = {k: v for k, v in tm.BINDERS.items() if k != 'for'}
BOUND = tm.BOUND


KARG = raw('karg')
SETATTR = const('setattr')

# attributes that hold a truth value, a list (never None)
BOOLS = {'is_aff', 'is_inf_to', 'is_affirmative'}
LISTS = {'particles', 'and_cconjs', 'or_cconjs', 'subjs', 'objs', 'exists', 'props', 'iprops', 'iobjs', 'adjs', 'agents',
         'subjs_verbs_iprops', 'copulas_props', 'pps_props', 'sentences', 'stuples'}


PAIRS = {'subjs_verbs_iprops', 'copulas_props', 'pps_props'}
NODES = LISTS - PAIRS - {'particles', 'sentences', 'stuples'}


def is_node(x):
    """Objects of a tree: never None, always true."""
    if x.op == 'sym':
        return x.args[0] == 'node'
    if x.op != 'item':
        return False
    o, k = x.args
    if o.op == 'sym':
        return o.args[0] == 'nodes'
    if o.op == 'attr':
        return o.args[1] in NODES
    if k is const(1) and (is_parent(o) or is_kid(o)):
        return True
    return o.op == 'item' and o.args[0].op == 'attr' and o.args[0].args[1] in PAIRS and \
        not (o.args[0].args[1] == 'subjs_verbs_iprops' and k is const(0))


def is_parent(x):
    """Arc to the parent: a pair or None."""
    return x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] == 'parent_of'


def is_kid(x):
    return x.op == 'item' and x.args[0].op == 'call' and x.args[0].args[0].op == 'attr' and \
        x.args[0].args[0].args[1] == 'kids_of'


class Budget(Exception):
    pass


# ---------------------------------------------------------------------------------------------
# binder names
# ---------------------------------------------------------------------------------------------

def heights(t, memo):
    stack = [t]
    while stack:
        x = stack[-1]
        if x in memo:
            stack.pop()
            continue
        todo = [k for k in kids(x) if k not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        h = 0
        for k in kids(x):
            if memo[k] > h:
                h = memo[k]
        if x.op in BINDERS:
            h += 1
        memo[x] = h
    return memo[t]


OUTER = {'fmap': (0,), 'exists': (0,), 'sum': (0,), 'psum': (0, 3), 'firstidx': (0,), 'fold': (0, 3), 'while': (), 'fix': ()}


def rename(t):
    """Names every binder after its height (a binder inside another one is lower)."""
    hs = {}
    heights(t, hs)
    free_memo = {}

    def free(x):
        """Binder names that occur free in x."""
        r = free_memo.get(x)
        if r is not None:
            return r
        stack = [x]
        while stack:
            y = stack[-1]
            if y in free_memo:
                stack.pop()
                continue
            todo = [k for k in kids(y) if k not in free_memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            out = set()
            if y.op in BINDERS:
                p = BINDERS[y.op]
                for n, a in enumerate(y.args):
                    if n == p:
                        continue
                    f = set()
                    for k in ([a] if isinstance(a, T) else tm._flat(a) if isinstance(a, (tuple, frozenset)) else []):
                        f |= free_memo[k]
                    if n not in OUTER[y.op]:
                        f.discard(y.args[p])
                    out |= f
            else:
                if y.op in BOUND and y.args and not isinstance(y.args[0], T):
                    out.add(y.args[0])
                for k in kids(y):
                    out |= free_memo[k]
            free_memo[y] = frozenset(out)
        return free_memo[x]

    memo = {}

    def arg(a, env):
        if isinstance(a, T):
            return go(a, env)
        if isinstance(a, tuple):
            return tuple(arg(b, env) for b in a)
        if isinstance(a, frozenset):
            return frozenset(arg(b, env) for b in a)
        return a

    def go(x, env):
        fr = free(x)
        key = (x, tuple(sorted(((n, env[n]) for n in fr if n in env), key=str)))
        r = memo.get(key)
        if r is not None:
            return r
        if x.op == 'wout':
            r = wout(x, env)
        elif x.op == 'fmap' and x.args[0].op == 'witer':
            r = witer(x, env)
        elif x.op == 'fold' and len(x.args[2].args) > 2:
            name = 'D%d' % hs[x]
            inner = dict(env)
            inner[x.args[1]] = name
            steps = [go(a, inner) for a in x.args[2].args]
            inits = [go(a, env) for a in x.args[3].args]
            steps, inits, _, _ = slots('foldv', name, steps, inits, [], [0])
            r = raw('fold', go(x.args[0], env), name, raw('tuple', *steps), raw('tuple', *inits))
        elif x.op in BINDERS:
            p = BINDERS[x.op]
            name = 'D%d' % hs[x]
            inner = dict(env)
            inner[x.args[p]] = name
            args = [name if n == p else arg(a, env if n in OUTER[x.op] else inner) for n, a in enumerate(x.args)]
            r = raw(x.op, *args)
        elif x.op in BOUND and x.args and not isinstance(x.args[0], T) and x.args[0] in env:
            r = raw(x.op, env[x.args[0]], *[arg(a, env) for a in x.args[1:]])
        elif x.op == 'midloop':
            r = raw('midloop', '?')
        elif x.args:
            r = raw(x.op, *[arg(a, env) for a in x.args])
        else:
            r = x
        memo[key] = r
        return r

    def witer(x, env):
        """Something done in every iteration of a while loop."""
        w = x.args[0].args[0]
        name, wname = 'D%d' % hs[x], 'D%d' % hs[w]
        inner = dict(env)
        inner[w.args[0]] = wname
        steps = [go(a, inner) for a in w.args[2].args]
        inits = [go(a, inner) for a in w.args[3].args]
        rest = [go(w.args[1], inner)] + [go(a, inner) for a in w.args[4:]]
        inner = dict(env)
        inner[x.args[1]] = name
        body = go(x.args[2], inner)
        sub = subterms(body)
        first = [k for k in range(len(steps)) if raw('wv', name, k) in sub]
        steps, inits, rest, at = slots('wv', wname, steps, inits, rest, first)
        body = reswap(body, {raw('wv', name, k): raw('wv', name, at[k]) for k in first})
        w = raw('while', wname, rest[0], raw('tuple', *steps), raw('tuple', *inits), *rest[1:])
        return raw('fmap', raw('witer', w), name, body)

    def wout(x, env):
        """Result n of a while loop: only the cells it depends on, in an order that does not depend on their names."""
        w, n = x.args
        if w.op != 'while':
            return raw('wout', go(w, env), n)
        name = 'D%d' % hs[w]
        inner = dict(env)
        inner[w.args[0]] = name
        steps = [go(a, inner) for a in w.args[2].args]
        inits = [go(a, inner) for a in w.args[3].args]
        rest = [go(w.args[1], inner)] + [go(a, inner) for a in w.args[4:]]
        steps, inits, rest, new = slots('wv', name, steps, inits, rest, [n])
        return raw('wout', raw('while', name, rest[0], raw('tuple', *steps), raw('tuple', *inits), *rest[1:]), new[n])

    return go(t, {})


def slots(op, name, steps, inits, rest, first):
    """Drops the cells of a loop that do not matter to the cells `first` and to the terms `rest`, and orders the others."""
    n = len(steps)
    cell = [raw(op, name, k) for k in range(n)]

    def used(t):
        sub = subterms(t)
        return {k for k in range(n) if cell[k] in sub}

    need, todo = set(), list(first)
    for t in rest:
        todo.extend(used(t))
    while todo:
        k = todo.pop()
        if k not in need:
            need.add(k)
            todo.extend(used(steps[k]))
    color = {k: sort_key(inits[k]) for k in need}
    for k in need:
        color[k] += b'1' if k in first else b'0'
    for _ in range(3):
        new = {}
        for k in need:
            mp = {cell[j]: raw('wcol', color[j].hex()) for j in need}
            mk = dict(mp)
            mk[cell[k]] = raw('wself')
            new[k] = sort_key(raw('tuple', raw('wcol', color[k].hex()), reswap(steps[k], mk), *[reswap(t, mk) for t in rest]))
        color = new
    order = sorted(need, key=lambda k: (k not in first, color[k], k))
    mp = {cell[k]: raw(op, name, i) for i, k in enumerate(order)}
    at = {k: i for i, k in enumerate(order)}
    return ([reswap(steps[k], mp) for k in order], [inits[k] for k in order], [reswap(t, mp) for t in rest], at)


def reswap(t, mp):
    """Simultaneous structural replacement without simplification."""
    memo = {}

    def arg(a):
        if isinstance(a, T):
            return go(a)
        if isinstance(a, tuple):
            return tuple(arg(b) for b in a)
        if isinstance(a, frozenset):
            return frozenset(arg(b) for b in a)
        return a

    def go(x):
        r = mp.get(x)
        if r is not None:
            return r
        r = memo.get(x)
        if r is None:
            r = raw(x.op, *[arg(a) for a in x.args]) if x.args else x
            memo[x] = r
        return r

    return go(t)


# ---------------------------------------------------------------------------------------------
# decision diagrams (as terms):  V(x, ((lit, child)..), default)  N(x, cuts, children)  B(atom, hi, lo)
# ---------------------------------------------------------------------------------------------

DD = ('V', 'N', 'B')


class Canon(object):
    def __init__(self, max_nodes=60000):
        self.memo = {}
        self.ite_memo = {}
        self.key_memo = {}
        self.base_memo = {}
        self.supp_memo = {}
        self.assume_memo = {}
        self.unlit_memo = {}
        self.rows_memo = {}
        self.max_nodes = max_nodes
        self.n = 0
        self.coarse = 0

    # -- variables ------------------------------------------------------------------------------

    def var_key(self, d):
        """Order of the decision variables."""
        k = self.key_memo.get(d)
        if k is None:
            v = d.args[0]
            b = self.base(d)
            sub = b''
            if d.op == 'V':
                n = 0
            elif d.op == 'N':
                n = 1 if v.op == 'len' else 2
            elif v.op in ('endswith', 'startswith') and is_const(v.args[1]) and isinstance(cval(v.args[1]), str):
                n = 3
                sub = v.op.encode() + bytes([255 - min(250, len(cval(v.args[1])))]) + sort_key(v.args[1])
            else:
                n = 4
            k = (depth(b), sort_key(b), n, sub)
            self.key_memo[d] = k
        return k

    def base(self, d):
        v = d.args[0]
        if d.op == 'N' and v.op == 'len':
            return v.args[0]
        if d.op == 'B' and v.op in ('endswith', 'startswith'):
            return v.args[0]
        return v

    def subject(self, d):
        """The text that a test for a match of a constant pattern is about."""
        v = d.args[0]
        if d.op == 'N' and v.op == 'len':
            v = v.args[0]
        if v.op == 'match' and v.args[1].op == 'regex':
            return v.args[2]
        return None

    def bases(self, d):
        """Terms that the tests of a diagram are about."""
        r = self.base_memo.get(d)
        if r is None:
            if d.op not in DD:
                r = frozenset()
            else:
                r = frozenset([self.base(d), self.subject(d)])
                for c in self.children(d):
                    r |= self.bases(c)
            self.base_memo[d] = r
        return r

    def support(self, d):
        r = self.supp_memo.get(d)
        if r is None:
            if d.op not in DD:
                r = frozenset()
            else:
                r = frozenset([(d.op, d.args[0])])
                for c in self.children(d):
                    r |= self.support(c)
            self.supp_memo[d] = r
        return r

    @staticmethod
    def children(d):
        if d.op == 'V':
            return [c for _, c in d.args[1]] + [d.args[2]]
        if d.op == 'N':
            return list(d.args[2])
        return [d.args[1], d.args[2]]

    def leaves(self, d, seen=None):
        out, stack, seen = [], [d], set()
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op in DD:
                stack.extend(self.children(x))
            else:
                out.append(x)
        return out

    # -- node constructors ----------------------------------------------------------------------

    def tick(self):
        self.n += 1
        if self.n > self.max_nodes * 20:
            raise Budget()

    def mkV(self, x, exc, default):
        self.tick()
        out = []
        default = self.assume(default, ('Vnot', x, frozenset(l for l, _ in exc)))
        for lit, c in exc:
            c = self.assume(c, ('V', x, lit))
            if c is default or default.op in DD and c is self.assume(default, ('V', x, lit)):
                # an exception with the default's outcome, unless the default was simplified by it
                continue
            if default.op not in DD and default.op != 'const' and c is self.leaf_subst(default, x, lit):
                continue
            out.append((lit, c))
        if not out:
            return default
        out.sort(key=lambda p: sort_key(p[0]))
        return raw('V', x, tuple(out), default)

    def leaf_subst(self, leaf, x, lit):
        if not mentions(leaf, x):
            return leaf
        return subst(leaf, {x: lit})

    def mkN(self, x, cuts, chs):
        self.tick()
        cs, ks = [], []
        n = len(chs)
        for i, c in enumerate(chs):
            lo = cuts[i - 1] if i > 0 else None
            hi = cuts[i] if i < n - 1 else None
            c = self.assume(c, ('N', x, lo, hi))
            if ks and ks[-1] is c:
                cs.pop()
            else:
                ks.append(c)
            if i < n - 1:
                cs.append(cuts[i])
        if len(ks) == 1:
            return ks[0]
        return raw('N', x, tuple(cs), tuple(ks))

    def mkB(self, atom, hi, lo):
        self.tick()
        if atom is TRUE:
            return hi
        if atom is FALSE:
            return lo
        if atom.op in ('endswith', 'startswith'):
            hi = self.assume(hi, ('B', atom, True))
            lo = self.assume(lo, ('B', atom, False))
        if hi is lo:
            return hi
        if hi.op not in DD and lo.op not in DD:
            r = self.empty_rule(atom, hi, lo)
            if r is not None:
                return r
        return raw('B', atom, hi, lo)

    def empty_rule(self, atom, hi, lo):
        """exists(S, c) ? f([x in S if c]) : f([])   ->   f([x in S if c])"""
        if atom.op != 'exists':
            return None
        if hi.op in ('list', 'set', 'sumof'):
            rows = hi.args[0]
            if lo is (const(0) if hi.op == 'sumof' else raw(hi.op, raw('rows'))):
                g = self.rows_nonempty(rows)
                if g is raw('B', atom, TRUE, FALSE):
                    return hi
        return None

    # -- assumptions -----------------------------------------------------------------------------

    def assume(self, d, fact):
        """Resolve the tests below d that a test on the same term decides."""
        if d.op not in DD:
            return d
        x = fact[1]
        if fact[0] == 'B':
            x = fact[1].args[0]
        elif fact[0] == 'N' and x.op == 'len':
            x = x.args[0]
        if x not in self.bases(d):
            return d
        k = (d, fact)
        r = self.assume_memo.get(k)
        if r is not None:
            return r
        r = self._assume(d, fact, x)
        self.assume_memo[k] = r
        return r

    def _assume(self, d, fact, x):
        if self.subject(d) is x and fact[0] == 'V' and is_const(fact[2]) and isinstance(cval(fact[2]), str):
            m = d.args[0] if d.args[0].op == 'match' else d.args[0].args[0]
            p = re.compile(cval(m.args[1].args[1]), m.args[1].args[2])
            hit = getattr(p, m.args[0])(cval(fact[2])) is not None
            if d.op == 'V':
                return self.assume(d.args[2] if hit else dict(d.args[1]).get(NONE, d.args[2]), fact)
            if d.op == 'N':
                return self.assume(d.args[2][-1 if hit else 0], fact)
        if self.base(d) is x:
            got = self.decide(d, fact)
            if got is not None:
                return self.assume(got, fact)
        if d.op == 'V':
            return self.mkV(d.args[0], tuple((l, self.assume(c, fact)) for l, c in d.args[1]),
                            self.assume(d.args[2], fact))
        if d.op == 'N':
            return self.mkN(d.args[0], d.args[1], tuple(self.assume(c, fact) for c in d.args[2]))
        return self.mkB(d.args[0], self.assume(d.args[1], fact), self.assume(d.args[2], fact))

    def decide(self, d, fact):
        """Child of d selected by the fact, or None."""
        k = fact[0]
        if k == 'V':
            lit = fact[2]
            if d.op == 'V':
                return dict(d.args[1]).get(lit, d.args[2])
            if d.op == 'N':
                v = d.args[0]
                n = lit_len(lit) if v.op == 'len' and v.args[0] is fact[1] else lit_num(lit)
                if n is None:
                    return None
                return d.args[2][sum(1 for c in d.args[1] if above(n, c))]
            a = d.args[0]
            if a.op in ('endswith', 'startswith'):
                s = cval(lit) if is_const(lit) else None
                if isinstance(s, str):
                    r = s.endswith(cval(a.args[1])) if a.op == 'endswith' else s.startswith(cval(a.args[1]))
                    return d.args[1] if r else d.args[2]
            return None
        if k == 'Vnot':
            if d.op == 'V' and d.args[0] is fact[1]:
                exc = tuple((l, c) for l, c in d.args[1] if l not in fact[2])
                if len(exc) != len(d.args[1]):
                    return self.mkV(d.args[0], exc, d.args[2])
            return None
        if k == 'N':
            _, x, lo, hi = fact
            if d.op == 'N' and d.args[0] is x:
                cuts, chs = d.args[1], d.args[2]
                a = 0
                while lo is not None and a < len(cuts) and cuts[a] <= lo:
                    a += 1
                b = len(cuts)
                while hi is not None and b > a and cuts[b - 1] >= hi:
                    b -= 1
                if a == b:
                    return chs[a]
                if a > 0 or b < len(cuts):
                    return self.mkN(x, cuts[a:b], chs[a:b + 1])
                return None
            if x.op == 'len' and d.op == 'B' and d.args[0].op in ('endswith', 'startswith') and hi is not None:
                if is_const(d.args[0].args[1]) and len(cval(d.args[0].args[1])) >= hi[0] + (1 if hi[1] else 0):
                    return d.args[2]
            return None
        if k == 'B':
            a, val = fact[1], fact[2]
            if d.op != 'B':
                return None
            b = d.args[0]
            if b is a:
                return d.args[1] if val else d.args[2]
            if b.op == a.op:
                s, t = cval(a.args[1]), cval(b.args[1])
                if val:
                    if (s.endswith(t) if a.op == 'endswith' else s.startswith(t)):
                        return d.args[1]
                    if not (t.endswith(s) if a.op == 'endswith' else t.startswith(s)):
                        return d.args[2]
                elif (t.endswith(s) if a.op == 'endswith' else t.startswith(s)):
                    return d.args[2]
            return None
        return None

    # -- combination -----------------------------------------------------------------------------

    def top_var(self, ds):
        best = None
        for d in ds:
            if d.op in DD:
                k = self.var_key(d)
                if best is None or k < best[0]:
                    best = (k, d)
        return best[1] if best else None

    def expand(self, v, ds, f):
        """Shannon expansion of f(ds) on the variable of node v."""
        x = v.args[0]
        mine = [d for d in ds if d.op == v.op and d.args[0] is x]
        if v.op == 'B':
            return self.mkB(x, f([d.args[1] if d in mine else d for d in ds]),
                            f([d.args[2] if d in mine else d for d in ds]))
        if v.op == 'V':
            lits = []
            for d in mine:
                for l, _ in d.args[1]:
                    if l not in lits:
                        lits.append(l)
            maps = {d: dict(d.args[1]) for d in mine}
            exc = tuple((l, f([maps[d].get(l, d.args[2]) if d in maps else d for d in ds])) for l in lits)
            return self.mkV(x, exc, f([d.args[2] if d in maps else d for d in ds]))
        cuts = sorted(set(c for d in mine for c in d.args[1]))
        chs = []
        for i in range(len(cuts) + 1):
            sel = []
            for d in ds:
                if d in mine:
                    # interval i lies above the cuts cuts[:i]
                    n = sum(1 for c in d.args[1] if i > 0 and c <= cuts[i - 1])
                    sel.append(d.args[2][n])
                else:
                    sel.append(d)
            chs.append(f(sel))
        return self.mkN(x, tuple(cuts), tuple(chs))

    def ite(self, c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is b:
            return a
        if a is TRUE and b is FALSE:
            return c
        k = (c, a, b)
        r = self.ite_memo.get(k)
        if r is not None:
            return r
        v = self.top_var(k)
        if v is None:
            r = self.mkB(c, a, b)     # condition that is not a diagram (cannot happen for well-formed input)
        else:
            r = self.expand(v, k, lambda l: self.ite(*l))
        self.ite_memo[k] = r
        return r

    def land(self, *cs):
        r = TRUE
        for c in sorted(set(cs), key=sort_key):
            r = self.ite(r, c, FALSE)
        return r

    def lor(self, *cs):
        r = FALSE
        for c in cs:
            r = self.ite(r, TRUE, c)
        return r

    def lnot(self, c):
        return self.ite(c, FALSE, TRUE)

    def apply(self, f, ds, memo=None):
        """f on the leaves of a tuple of diagrams."""
        ds = tuple(ds)
        if memo is None:
            memo = {}
        r = memo.get(ds)
        if r is not None:
            return r
        v = self.top_var(ds)
        if v is None:
            r = f(*ds)
        else:
            if len(memo) > 4000:
                raise Budget()
            r = self.expand(v, list(ds), lambda l: self.apply(f, l, memo))
        memo[ds] = r
        return r

    # -- canonical values -------------------------------------------------------------------------

    def C(self, t):
        r = self.memo.get(t)
        if r is None:
            self.tick()
            r = self._C(t)
            self.memo[t] = r
        return r

    def _C(self, t):
        op = t.op
        if op in ('const', 'sym', 'idx', 'top', 'lib', 'module', 'karg', 'init', 'garbage', 'undef', 'anon'):
            return t
        if op == 'enum':
            return t
        if op == 'ite':
            c = self.cond(t.args[0])
            return self.push(self.ite(c, self.C(t.args[1]), self.C(t.args[2])))
        if tm.is_bool(t):
            return self.cond(t)
        if op in ('list', 'set', 'dict'):
            return raw(op, self.rows(t.args[0], 'set' if op == 'set' else 'seq'))
        if op in tm.SEQ_OPS and op != 'lvseq':
            return raw('list', self.rows(t, 'seq'))
        if op == 'obj':
            return raw('obj', t.args[0].split('.')[-1],
                       tuple((k, self.C(v)) for k, v in sorted(t.args[1], key=lambda p: p[0]) if not k.startswith('_')))
        if op == 'tuple':
            return raw('tuple', *[self.C(a) for a in t.args])
        if op in ('app', 'appset', 'inc', 'path'):
            return self.lift(op, t.args, lambda *a: raw(op, *a))
        if op == 'oid':
            return raw('oid')
        if op == 'sum':
            return self.C(raw('sumof', raw('fmap', t.args[0], t.args[1], one(t.args[2]))))
        if op == 'psum':
            return self.C(raw('sumof', raw('fmap', raw('take', t.args[0], t.args[3]), t.args[1], one(t.args[2]))))
        if op == 'sumof':
            return self.sumof(t.args[0])
        if op == 'len':
            a = t.args[0]
            if a.op == 'list':
                return self.sumof(tm.over_seq(a.args[0], lambda v: one(const(1))) or a.args[0])
            return self.lift('len', (a,), self.f_len)
        if op == 'firstidx':
            src, lid, c = t.args
            return self.apply(lambda s: raw('firstidx', s, lid, self.cond(c)), [self.C(src)])
        if op in ('fold', 'while', 'fix'):
            return raw(op, *[self.deep(a) for a in t.args])
        if op == 'item':
            return self.item(t)
        if op == 'lin':
            c, parts = t.args
            ds = [self.C(x) for x, _ in parts]
            return self.apply(lambda *l: tm.mk_lin(c, [(x, k) for x, (_, k) in zip(l, parts)]), ds)
        if op == 'attr':
            rest = t.args[1:]
            return self.lift('attr', t.args[:1], lambda o: self.f_attr(o, rest))
        if op == 'strcat':
            return self.lift(op, t.args, text_of)
        if op == 'setop' and t.args[0] == 'sub':
            return self.apply(self.f_less, [self.C(a) for a in t.args[1:]])
        if op in ('mod', 'floordiv'):
            return self.lift(op, t.args, lambda *a: tm.mk_intdiv(op, *a))
        if op in ('mul', 'add', 'slice'):
            return self.lift(op, t.args, lambda *a: tm.mk(op, *a))
        if op in ('max', 'min') and len(t.args) > 2 and t.args[0] is NONE:
            return self.lift(op, t.args[1:], lambda *a: raw(op, NONE, *sorted(a, key=sort_key)))
        if op == 'join' and len(t.args) == 2 and t.args[1].op == 'list':
            ds = [self.C(a) for a in t.args]
            try:
                return self.push(self.apply(self.f_join, ds))
            except Budget:
                if self.n > self.max_nodes * 20:
                    raise
                self.coarse += 1
                return raw('join', *ds)
        return self.lift_args(t)

    def f_less(self, a, b):
        """a - b: elements of a that b has by construction go."""
        if a.op == 'set' and b.op == 'set':
            def less(xs, ys):
                out = []
                for x in xs:
                    if x in ys:
                        continue
                    if x.op == 'for':
                        same = [y for y in ys if y.op == 'for' and y.args[0] is x.args[0]]
                        rest = less(x.args[2].args, [z for y in same for z in swap_idx(y.args[2], y.args[1], x.args[1]).args])
                        if rest:
                            out.append(raw('for', x.args[0], x.args[1], raw('rows', *rest)))
                    elif x.op == 'row':
                        g = self.land(x.args[0], *[self.lnot(y.args[0]) for y in ys if y.op == 'row' and y.args[1] is x.args[1]])
                        if g is not FALSE:
                            out.append(raw('row', g, x.args[1]))
                    else:
                        out.append(x)
                return out
            a = raw('set', raw('rows', *less(a.args[0].args, list(b.args[0].args))))
        return raw('setop', 'sub', a, b)

    def deep(self, a):
        """Canonical arguments without lifting."""
        if isinstance(a, T):
            return self.C(a)
        if isinstance(a, tuple):
            return tuple(self.deep(b) for b in a)
        if isinstance(a, frozenset):
            return frozenset(self.deep(b) for b in a)
        return a

    def f_attr(self, o, rest):
        if o.op == 'obj':
            for k, v in o.args[1]:
                if k == rest[0]:
                    return v
        r = raw('attr', o, *[self.deep(r) for r in rest])
        return raw('V', r, ((TRUE, TRUE),), FALSE) if rest[0] in BOOLS else r

    def f_len(self, a):
        while a.op in ('keys', 'values', 'items', 'sorted', 'reversed', 'tolist') and isinstance(a.args[0], T) and \
                a.args[0].op not in DD:
            a = a.args[0]
        if a.op == 'zip':
            a = self.zipped(a)
        r = tm.mk_len(a)
        return r

    def lift(self, op, args, f):
        ds = [self.C(a) for a in args]
        if any(d.op in DD for d in ds):
            try:
                return self.push(self.apply(f, ds))
            except Budget:
                if self.n > self.max_nodes * 20:
                    raise
                self.coarse += 1
        return f(*ds)

    def lift_args(self, t):
        """Generic strict operation: term arguments (also inside tuples) are lifted."""
        flat = []
        keyed = set()        # bodies of key functions: conditions in there are not about the outside

        def collect(a):
            if isinstance(a, T):
                if a.op != 'karg' and mentions(a, KARG):
                    keyed.add(a)
                else:
                    flat.append(self.C(a))
            elif isinstance(a, tuple):
                for b in a:
                    collect(b)

        for a in t.args:
            collect(a)

        def build(*vals):
            it = iter(vals)

            def sub(a):
                if isinstance(a, T):
                    return self.C(a) if a in keyed else next(it)
                if isinstance(a, tuple):
                    return tuple(sub(b) for b in a)
                if isinstance(a, frozenset):
                    return frozenset(self.deep(b) for b in a)
                return a

            return raw(t.op, *[sub(a) for a in t.args])

        if any(d.op in DD for d in flat):
            try:
                return self.push(self.apply(build, flat))
            except Budget:
                if self.n > self.max_nodes * 20:
                    raise
                self.coarse += 1
        return build(*flat)

    def f_join(self, sep, l):
        """Joined text: rows that may be absent are told apart (while few)."""
        rows = l.args[0].args if l.op == 'list' else ()
        may = [n for n, x in enumerate(rows) if x.op in ('row', 'spr') and x.args[0] is not TRUE]
        if not rows or len(may) > 5:
            return raw('join', sep, l)
        if may:
            n = may[0]
            x = rows[n]
            yes = raw('list', raw('rows', *rows[:n], raw(x.op, TRUE, x.args[1]), *rows[n + 1:]))
            no = raw('list', raw('rows', *rows[:n], *rows[n + 1:]))
            return self.ite(x.args[0], self.f_join(sep, yes), self.f_join(sep, no))
        if all(x.op == 'row' for x in rows):
            parts = []
            for n, x in enumerate(rows):
                parts += [sep] * (n > 0) + [x.args[1]]
            return self.apply(text_of, parts)
        if len([x for x in rows if x.op == 'row']) == 1:
            alone = [x for x in rows if x.op == 'row'][0].args[1]
            more = self.rows_nonempty(raw('rows', *[x for x in rows if x.op != 'row']))
            if more is not TRUE:
                return self.ite(more, raw('join', sep, l), alone)
        return raw('join', sep, l)

    def item(self, t):
        base, key = t.args
        if base.op == 'list' and key is const(0):
            return self.first(base.args[0])

        def f(b, k):
            if b.op == 'tuple' and is_int(k) and -len(b.args) <= cval(k) < len(b.args):
                return b.args[cval(k)]
            return raw('item', b, k)

        return self.lift('item', (base, key), f)

    def first(self, seq):
        """First element of a sequence known to be non-empty."""
        rows = self.rows(seq, 'seq')
        r = self.first_rows(list(rows.args))
        if r is None:
            return raw('item', raw('list', rows), const(0))
        return r

    def first_rows(self, items):
        if not items:
            return None
        x = items[0]
        if x.op == 'row':
            g, v = x.args
            if g is TRUE or len(items) == 1:
                return v
            rest = self.first_rows(items[1:])
            return None if rest is None else self.ite(g, v, rest)
        if x.op == 'spr' and len(items) == 1:
            return raw('item', x.args[1], const(0))
        if x.op == 'for' and len(items) == 1:
            src, d, rows = x.args
            if all(r.op == 'row' for r in rows.args) and rows.args:
                c = self.lor(*[r.args[0] for r in rows.args])
                v = rows.args[-1].args[1]
                for r in reversed(rows.args[:-1]):
                    v = self.ite(r.args[0], r.args[1], v)
                fi = raw('firstidx', src, d, c)
                return self.C(subst(self.term(v), {idx(d): self.term(fi)}))
        return None

    def push(self, d):
        """Push a diagram into its leaves when these share one constructor."""
        if d.op not in DD:
            return d
        ls = self.leaves(d)
        ops = set(l.op for l in ls)
        if len(ops) != 1:
            return d
        op = next(iter(ops))
        if op in ('list', 'set', 'dict'):
            gs = self.split(d)
            items = []
            if op in ('set', 'list', 'dict'):
                for g, l in gs:
                    items.extend(self.guard_items(l.args[0].args, g))
                return raw(op, self.mk_rows(items, 'set' if op == 'set' else 'seq'))
        if op == 'tuple' and len(set(len(l.args) for l in ls)) == 1:
            n = len(ls[0].args)
            return raw('tuple', *[self.push(self.apply(lambda l: l.args[i], [d])) for i in range(n)])
        if op == 'obj' and len(set((l.args[0], tuple(k for k, _ in l.args[1])) for l in ls)) == 1:
            names = [k for k, _ in ls[0].args[1]]
            return raw('obj', ls[0].args[0],
                       tuple((k, self.push(self.apply(lambda l: l.args[1][i][1], [d]))) for i, k in enumerate(names)))
        return d

    def split(self, d, g=TRUE):
        """[(guard, leaf)] of a diagram, guards being exclusive; leaves in digest order."""
        ls = sorted(self.leaves(d), key=sort_key)
        out = []
        for l in ls:
            c = self.land(g, self.apply(lambda x: TRUE if x is l else FALSE, [d]))
            if c is not FALSE:
                out.append((c, l))
        return out

    def ground(self, v, g, budget=200):
        """Split a value into ground alternatives (guard, value)."""
        if v.op in DD:
            out = []
            for c, l in self.split(v, g):
                sub = self.ground(l, c, budget)
                if sub is None or len(out) + len(sub) > budget:
                    return None
                out.extend(sub)
            return out
        if v.op == 'tuple' and any(a.op in DD or a.op in ('tuple', 'obj') for a in v.args):
            alts = [(g, ())]
            for a in v.args:
                new = []
                for c, pre in alts:
                    sub = self.ground(a, c, budget)
                    if sub is None:
                        return None
                    new.extend((c2, pre + (l,)) for c2, l in sub)
                alts = new
                if len(alts) > budget:
                    return None
            return [(c, raw('tuple', *p)) for c, p in alts]
        if v.op == 'obj':
            alts = [(g, ())]
            for k, a in v.args[1]:
                new = []
                for c, pre in alts:
                    sub = self.ground(a, c, budget)
                    if sub is None:
                        return None
                    new.extend((c2, pre + ((k, l),)) for c2, l in sub)
                alts = new
                if len(alts) > budget:
                    return None
            return [(c, raw('obj', v.args[0], p)) for c, p in alts]
        if v.op in ('app', 'appset', 'inc') and v.args[1].op in ('tuple', 'obj'):
            sub = self.ground(v.args[1], g, budget)
            if sub is None:
                return None
            return [(c, raw(v.op, v.args[0], l)) for c, l in sub]
        return [(g, v)]

    # -- conditions -------------------------------------------------------------------------------

    def cond(self, t):
        """Diagram with TRUE/FALSE leaves."""
        k = ('cond', t)
        r = self.memo.get(k)
        if r is None:
            self.tick()
            r = self._cond(t)
            self.memo[k] = r
        return r

    def _cond(self, t):
        op = t.op
        if t is TRUE or t is FALSE:
            return t
        if op == 'const':
            return const(bool(cval(t)))
        if op == 'not':
            return self.lnot(self.cond(t.args[0]))
        if op == 'and':
            r = TRUE
            for a in t.args:
                r = self.ite(r, self.cond(a), FALSE)
            return r
        if op == 'or':
            r = FALSE
            for a in t.args:
                r = self.ite(r, TRUE, self.cond(a))
            return r
        if op == 'ite':
            return self.ite(self.cond(t.args[0]), self.cond(t.args[1]), self.cond(t.args[2]))
        if op == 'memb':
            s = t.args[1]
            return self.apply(lambda x: self.f_memb(x, s), [self.C(t.args[0])])
        if op == 'isnone':
            return self.apply(lambda x: self.f_memb(x, frozenset([NONE])), [self.C(t.args[0])])
        if op == 'eq':
            return self.apply(self.f_eq, [self.C(t.args[0]), self.C(t.args[1])])
        if op in ('truthy', 'nonempty'):
            return self.apply(self.f_truthy, [self.C(t.args[0])])
        if op in ('lt', 'le'):
            return self.apply(lambda a, b: self.f_cmp(op, a, b), [self.C(t.args[0]), self.C(t.args[1])])
        if op == 'exists':
            return self.exists(t)
        if op == 'in':
            return self.f_in_term(t)
        if op in ('endswith', 'startswith') and t.args[1].op == 'tuple':
            return self.lor(*[self.cond(raw(op, t.args[0], a)) for a in t.args[1].args])
        if tm.is_bool(t):
            return self.apply(lambda x: self.mkB(x, TRUE, FALSE) if x not in (TRUE, FALSE) else x, [self.lift_args(t)])
        return self.apply(self.f_truthy, [self.C(t)])

    def f_memb(self, x, s):
        if is_lit(x):
            return TRUE if any(tm.mk_eq(x, l) is TRUE for l in s) else FALSE
        if x.op in ('tuple', 'list', 'dict', 'set', 'obj', 'strcat', 'firstidx', 'len', 'lin', 'idx', 'sumof', 'add', 'mul',
                    'join', 'resub', 'slice', 'sorted') and s == frozenset([NONE]):
            return FALSE
        if s == frozenset([NONE]) and (tm.mk_isnone(x) is FALSE or x.op == 'attr' and x.args[1] in LISTS or is_node(x)):
            return FALSE
        if s == frozenset([NONE]) and x.op == 'item' and x.args[0].op == 'dict' and self.somethings(x.args[0].args[0]):
            return FALSE
        if x.op in ('len', 'sumof') or x.op == 'lin' or x.op == 'idx':
            ns = [cval(l) for l in s if is_num(l)]
            if len(ns) == len(s):
                return self.lor(*[self.land(self.thresh(x, (n, 0)), self.lnot(self.thresh(x, (n, 1)))) for n in ns])
        if x in (TRUE, FALSE):
            return TRUE if x in s else FALSE
        if x.op == 'item' and x.args[1] is const(-1) and all(is_const(l) and isinstance(cval(l), str) and len(cval(l)) == 1 for l in s):
            # the last character
            return self.lor(*[self.mkB(raw('endswith', x.args[0], l), TRUE, FALSE) for l in sorted(s, key=sort_key)])
        if x.op == 'strm' and x.args[0] == 'find' and len(x.args) == 3 and s == frozenset([const(-1)]):
            return self.lnot(self.f_in(x.args[2], x.args[1]))
        return self.mkV(x, tuple((l, TRUE) for l in sorted(s, key=sort_key)), FALSE)

    def somethings(self, rows):
        """No value of the dictionary is None."""
        for r in rows.args:
            if r.op == 'for':
                if not self.somethings(r.args[2]):
                    return False
            elif r.op == 'spr':
                return False
            else:
                v = r.args[1]
                if v.op == 'tuple' and len(v.args) == 2:
                    v = v.args[1]
                    if not (v.op in ('tuple', 'list', 'dict', 'set', 'obj', 'strcat') or is_lit(v) and v is not NONE):
                        return False
                elif v.op not in ('app', 'appset', 'inc'):
                    return False
        return True

    def f_eq(self, a, b):
        if a is b and a.op != 'top':
            return TRUE
        if is_lit(a) or is_lit(b):
            if is_lit(a) and is_lit(b):
                return tm.mk_eq(a, b)
            x, l = (b, a) if is_lit(a) else (a, b)
            return self.f_memb(x, frozenset([l]))
        if a.op == 'tuple' and b.op == 'tuple':
            if len(a.args) != len(b.args):
                return FALSE
            return self.land(*[self.apply(self.f_eq, [x, y]) for x, y in zip(a.args, b.args)])
        if tm.numeric(a) or tm.numeric(b):
            d = tm.lin_sub(a, b)
            if is_num(d):
                return const(cval(d) == 0)
            return self.f_memb(d, frozenset([const(0)])) if d.op == 'lin' else self.f_memb(d, frozenset([const(0)]))
        if sort_key(b) < sort_key(a):
            a, b = b, a
        return self.mkB(raw('eq', a, b), TRUE, FALSE)

    def f_truthy(self, x):
        if x in (TRUE, FALSE):
            return x
        if x.op == 'const':
            return const(bool(cval(x)))
        if x.op == 'tuple':
            return const(bool(x.args))
        if x.op in ('list', 'set'):
            return self.rows_nonempty(x.args[0])
        if is_node(x):
            return TRUE
        if is_parent(x):
            return self.lnot(self.f_memb(x, frozenset([NONE])))
        if x.op in ('sorted', 'reversed', 'keys', 'values', 'items', 'tolist', 'enumerate'):
            return self.apply(self.f_truthy, [x.args[0]]) if isinstance(x.args[0], T) else self.thresh(raw('len', x), (1, 0))
        if x.op == 'obj' or x.op == 'func':
            return TRUE
        if x.op == 'dict':
            return self.rows_nonempty(x.args[0])
        if x.op == 'enum':
            return tm.truthy(x)
        if x.op == 'len':
            return self.thresh(x, (1, 0))
        if x.op in ('lin', 'sumof', 'idx'):
            return self.lnot(self.f_memb(x, frozenset([const(0)])))
        return self.thresh(raw('len', self.zipped(x) if x.op == 'zip' else x), (1, 0))

    def f_cmp(self, op, a, b):
        if is_num(a) and is_num(b):
            return const(cval(a) < cval(b) if op == 'lt' else cval(a) <= cval(b))
        d = tm.lin_sub(b, a)          # 0 (<|<=) d
        c, parts = tm.lin_parts(d)
        if not parts:
            return const(c > 0 if op == 'lt' else c >= 0)
        if not (tm.numeric(a) or tm.numeric(b) or all(isinstance(k, (int, float)) for _, k in parts)):
            return self.mkB(raw(op, a, b), TRUE, FALSE)
        x = tm.mk_lin(0, parts)
        return self.thresh(x, (-c, 1 if op == 'lt' else 0))

    def thresh(self, x, cut):
        """x >= cut[0] (cut[1] = 0) or x > cut[0] (cut[1] = 1)."""
        n, strict = cut
        c, parts = tm.lin_parts(x)
        if c:
            n = n - c
            x = tm.mk_lin(0, parts)
        if not parts:
            return const(0 > n or (0 == n and not strict))
        ints = isinstance(n, int)
        if len(parts) == 1:
            t, k = parts[0]
            if k != 1 and isinstance(k, int):
                if k < 0:
                    # k*t >= n  <->  t <= n/k
                    m = n / k
                    if ints and n % k == 0:
                        m = n // k
                    if m == int(m):
                        m = int(m)
                    # t <= m (or t < m when strict)
                    return self.lnot(self.thresh(t, (m, 1 if not strict else 0)))
                if n % k == 0 if ints else False:
                    return self.thresh(t, (n // k, strict))
        else:
            neg = tm.lin_scale(x, -1)
            if sort_key(neg) < sort_key(x):
                # x >= n  <->  -x <= -n  <->  not (-x > -n)
                return self.lnot(self.thresh0(neg, (-n, 1 - strict)))
        return self.thresh0(x, (n, strict))

    def thresh0(self, x, cut):
        n, strict = cut
        if isinstance(n, bool):
            n = int(n)
        if isinstance(n, int) and strict:
            n, strict = n + 1, 0
        if x.op in ('len', 'idx', 'firstidx') and (n < 0 or (n == 0 and not strict)):
            return TRUE
        if x.op == 'len' and x.args[0].op == 'slice' and isinstance(n, int) and x.args[0].args[3] is NONE:
            base, lo, hi = x.args[0].args[:3]
            size = raw('len', base)
            if hi is NONE and tm.is_int(lo):
                if cval(lo) >= 0:
                    return self.thresh0(size, (n + cval(lo), 0))
                return self.thresh0(size, (n, 0)) if n <= -cval(lo) else FALSE
            if lo is NONE and tm.is_int(hi):
                if cval(hi) < 0:
                    return self.thresh0(size, (n - cval(hi), 0))
                return self.thresh0(size, (n, 0)) if n <= cval(hi) else FALSE
        if x.op == 'strm' and len(x.args) == 3 and (n == 0 and x.args[0] == 'find' or n == 1 and x.args[0] == 'count'):
            return self.f_in(x.args[2], x.args[1])
        if x.op == 'sumof' and self.counts(x) and n <= 1:
            if n <= 0:
                return TRUE
            return self.rows_nonempty(x.args[0])
        return self.mkN(x, ((n, strict),), (FALSE, TRUE))

    def counts(self, x):
        """sumof a sequence of ones."""
        def ok(rows):
            return all((r.op == 'row' and r.args[1] is const(1)) or (r.op == 'for' and ok(r.args[2])) for r in rows.args)
        return ok(x.args[0])

    def f_in_term(self, t):
        x, c = t.args
        if c.op in ('list', 'set', 'dict'):
            def f(v):
                k = tm.upd_key(v) if c.op == 'dict' else v
                return seq_ite(tm.mk_eq(k, x), one(TRUE), EMPTY)
            s = tm.over_seq(c.args[0], f)
            if s is not None:
                return self.cond(tm.seq_nonempty(s))
        return self.apply(self.f_in, [self.C(x), self.C(c)])

    def f_in(self, x, c):
        if c.op == 'tuple':
            return self.lor(*[self.apply(self.f_eq, [x, a]) for a in c.args])
        if c.op in ('keys', 'sorted', 'tolist', 'reversed') and isinstance(c.args[0], T):
            return self.apply(self.f_in, [x, c.args[0]])
        if is_const(x) and is_const(c):
            r = tm.mk_in(x, c)
            if r in (TRUE, FALSE):
                return r
        return self.mkB(raw('in', x, c), TRUE, FALSE)

    def exists(self, t):
        src, lid, c = t.args
        d = self.cond(c)
        i = idx(lid)
        return self.apply(lambda s: self.exists1(s, lid, i, d), [self.C(src)])

    def exists1(self, s, lid, i, d):
        if d is FALSE:
            return FALSE
        if s.op == 'zip' and not mentions(d, s):
            s = self.zipped(s)
        d = self.in_loop(d, s, lid)
        free = self.free_vars(d, i)
        if free:
            v = free[0]
            return self.expand_on(v, d, lambda x: self.exists1(s, lid, i, x))
        if d is TRUE:
            return self.f_truthy(s)
        if s.op == 'tuple':
            return self.lor(*[self.cond(subst(self.term(d), {raw('item', s, i): a})) for a in s.args])
        # x == s[i] -> x in s
        if d.op == 'B' and d.args[1] is TRUE and d.args[2] is FALSE and d.args[0].op == 'eq':
            it = raw('item', s, i)
            a, b = d.args[0].args
            if a is it and not mentions(b, i):
                return self.f_in(b, s)
            if b is it and not mentions(a, i):
                return self.f_in(a, s)
        r = self.mkB(raw('exists', s, lid, d), TRUE, FALSE)
        e = self.implied(s)
        return r if e is None else self.land(e, r)

    def implied(self, s):
        """What a loop over s being entered says about the rows s is made from (None: nothing more than that)."""
        if s.op in ('keys', 'values', 'items') and s.args[0].op == 'dict':
            e = self.rows_nonempty(s.args[0].args[0])
            return e if e.op == 'B' else None
        return None

    def free_vars(self, d, i):
        """Decision nodes of d whose variable does not depend on index i, in order."""
        out, seen, stack = {}, set(), [d]
        while stack:
            x = stack.pop()
            if x in seen or x.op not in DD:
                continue
            seen.add(x)
            if not mentions(x.args[0], i):
                k = self.var_key(x)
                if (x.op, x.args[0]) not in out:
                    out[(x.op, x.args[0])] = (k, x)
            stack.extend(self.children(x))
        return [x for k, x in sorted(out.values(), key=lambda p: p[0])][:12]

    def expand_on(self, v, d, f):
        """Case split of d on the variable of v (anywhere in d), f on every case."""
        nodes, seen, stack = [], set(), [d]
        while stack:
            x = stack.pop()
            if x in seen or x.op not in DD:
                continue
            seen.add(x)
            if x.op == v.op and x.args[0] is v.args[0]:
                nodes.append(x)
            stack.extend(self.children(x))
        x = v.args[0]
        if v.op == 'B':
            return self.ite(raw('B', x, TRUE, FALSE), f(self.restrict(d, v, True)), f(self.restrict(d, v, False)))
        if v.op == 'V':
            lits = []
            for n in nodes:
                for l, _ in n.args[1]:
                    if l not in lits:
                        lits.append(l)
            r = f(self.restrict(d, v, None))
            for l in lits:
                r = self.ite(raw('V', x, ((l, TRUE),), FALSE), f(self.restrict(d, v, l)), r)
            return r
        cuts = sorted(set(c for n in nodes for c in n.args[1]))
        r = f(self.restrict(d, v, (None, cuts[0])))
        for j, c in enumerate(cuts):
            hi = cuts[j + 1] if j + 1 < len(cuts) else None
            r = self.ite(raw('N', x, (c,), (FALSE, TRUE)), f(self.restrict(d, v, (c, hi))), r)
        return r

    def restrict(self, d, v, val):
        memo = {}
        x = v.args[0]

        def go(n):
            if n.op not in DD:
                return n
            r = memo.get(n)
            if r is not None:
                return r
            if n.op == v.op and n.args[0] is x:
                if n.op == 'B':
                    r = go(n.args[1] if val else n.args[2])
                elif n.op == 'V':
                    r = go(n.args[2] if val is None else dict(n.args[1]).get(val, n.args[2]))
                else:
                    lo, hi = val
                    j = sum(1 for c in n.args[1] if lo is not None and c <= lo)
                    r = go(n.args[2][j])
            elif n.op == 'B':
                r = self.ite(raw('B', n.args[0], TRUE, FALSE), go(n.args[1]), go(n.args[2]))
            elif n.op == 'V':
                r = go(n.args[2])
                for l, c in n.args[1]:
                    r = self.ite(raw('V', n.args[0], ((l, TRUE),), FALSE), go(c), r)
            else:
                r = go(n.args[2][0])
                for c, ch in zip(n.args[1], n.args[2][1:]):
                    r = self.ite(raw('N', n.args[0], (c,), (FALSE, TRUE)), go(ch), r)
            memo[n] = r
            return r

        return go(d)

    # -- rows --------------------------------------------------------------------------------------

    def rows(self, seq, mode):
        k = (seq, mode)
        r = self.rows_memo.get(k)
        if r is None:
            r = self.mk_rows(self.items(seq, TRUE, mode), mode)
            self.rows_memo[k] = r
        return r

    def items(self, seq, g, mode):
        """Flat list of row items of a sequence term under guard g."""
        self.tick()
        if g is FALSE:
            return []
        op = seq.op
        if op == 'cat':
            out = []
            for p in seq.args:
                out.extend(self.items(p, g, mode))
            return out
        if op == 'one':
            v = self.C(seq.args[0])
            alts = self.ground(v, g)
            if alts is None:
                self.coarse += 1
                return [raw('row', g, v)]
            return [raw('row', c, l) for c, l in alts]
        if op == 'site':
            c = self.cond(seq.args[0])
            return self.items(seq.args[1], self.land(g, c), mode) + self.items(seq.args[2], self.land(g, self.lnot(c)), mode)
        if op == 'spread':
            v = self.C(seq.args[0])
            out = []
            for c, l in self.split(v, g):
                out.extend(self.spread_items(l, c, mode))
            return out
        if op == 'fmap':
            src, lid, body = seq.args
            s = self.C(src)
            if s.op == 'zip' and not mentions(body, src):
                s = self.zipped(s)
            out = []
            for c, l in self.split(s, g):
                if l.op == 'tuple' or (l.op == 'list' and not l.args[0].args):
                    vals = l.args if l.op == 'tuple' else ()
                    for n, a in enumerate(vals):
                        b2 = subst(body, {idx(lid): const(n)})
                        out.extend(self.items(b2, c, mode))
                    continue
                inner = self.items(body, c, mode)
                inner = [self.loop_item(x, l, lid) for x in inner]
                inner = [x for x in inner if x is not None]
                if not inner:
                    continue
                out.append(raw('for', l, lid, self.mk_rows(inner, mode)))
            return out
        return [raw('spr', g, self.C(seq) if op != 'lvseq' else seq)]

    def zipped(self, z):
        """The sequences that bound a loop over zip(...): of several with the same length, one."""
        best = {}
        for a in z.args:
            if not isinstance(a, T) or a.op in DD:
                return z
            if a.op == 'list' and len(a.args[0].args) == 1 and a.args[0].args[0].op == 'spr' and \
                    a.args[0].args[0].args[0] is TRUE and a.args[0].args[0].args[1].op == 'repeat':
                n = a.args[0].args[0].args[1].args
                n = n[1] if len(n) > 1 else None
                if n is None:
                    continue
            else:
                n = self.C(raw('len', self.term(a)))
            k = (a.op in ('list', 'range'), sort_key(a))
            if n not in best or k < best[n][0]:
                best[n] = (k, a)
        keep = [a for _, a in best.values()]
        if len(keep) == 1:
            return keep[0]
        return raw('zip', *[a for a in z.args if a in keep]) if keep else z

    def spread_items(self, l, c, mode):
        if l.op == 'list' or l.op == 'set' and (mode == 'set' or all(r.op == 'row' and is_lit(r.args[1]) for r in l.args[0].args)
                                                or len(l.args[0].args) == 1 and l.args[0].args[0].op == 'row'):
            return self.guard_items(l.args[0].args, c)
        if l.op == 'tuple':
            return [raw('row', c, a) for a in l.args]
        if l.op == 'add':
            out = []
            for a in l.args:
                out.extend(self.spread_items(a, c, mode) if a.op not in DD else
                           [y for c2, l2 in self.split(a, c) for y in self.spread_items(l2, c2, mode)])
            return out
        if l.op == 'const' and cval(l) in ('', ()):
            return []
        return [raw('spr', c, l)]

    def guard_items(self, items, g):
        if g is TRUE:
            return list(items)
        out = []
        for x in items:
            if x.op in ('row', 'spr'):
                c = self.land(x.args[0], g)
                if c is not FALSE:
                    out.append(raw(x.op, c, x.args[1]))
            else:
                sub = self.guard_items(x.args[2].args, g)
                if sub:
                    out.append(raw('for', x.args[0], x.args[1], raw('rows', *sub)))
        return out

    def loop_item(self, x, src, lid):
        """Simplify the guards of an item knowing that it sits inside a loop over src."""
        if x.op in ('row', 'spr'):
            g = self.in_loop(x.args[0], src, lid)
            return raw(x.op, g, x.args[1]) if g is not FALSE else None
        sub = [self.loop_item(y, src, lid) for y in x.args[2].args]
        sub = [y for y in sub if y is not None]
        return raw('for', x.args[0], x.args[1], raw('rows', *sub)) if sub else None

    def in_loop(self, g, src, lid):
        """Guard of something that happens for an element src[idx(lid)]."""
        if g.op not in DD:
            return g
        i = idx(lid)
        e = self.implied(src)
        if e is not None and e.args[1] is TRUE and e.args[2] is FALSE and ('B', e.args[0]) in self.support(g):
            g = self.restrict(g, e, True)
        for kind, v in sorted(self.support(g), key=lambda p: sort_key(p[1])):
            if kind == 'N' and v.op == 'len' and v.args[0] is src:
                g = self.assume(g, ('N', v, (1, 0), None))
            elif kind == 'B' and v.op == 'exists' and v.args[0] is src and v.args[1] != lid:
                node = raw('B', v, TRUE, FALSE)
                c = v.args[2]
                here = self.cond(subst(self.term(c), {idx(v.args[1]): i}))
                g2 = self.ite(here, self.restrict(g, node, True), g)
                if ('B', v) not in self.support(g2):
                    g = g2
            elif kind == 'N' and v is i:
                g = self.assume(g, ('N', v, (0, 0), None))
            elif kind == 'N' and v.op == 'len' and src.op == 'zip' and v.args[0] is self.zipped(src):
                g = self.assume(g, ('N', v, (1, 0), None))
            elif kind == 'B' and v.op == 'in' and v.args[1] is src and v.args[0] is raw('item', src, i):
                g = self.restrict(g, raw('B', v, TRUE, FALSE), True)
        return g

    def rows_nonempty(self, rows):
        out = []
        for x in rows.args:
            if x.op == 'row':
                out.append(x.args[0])
            elif x.op == 'spr':
                out.append(self.land(x.args[0], self.f_truthy(x.args[1])))
            else:
                c = self.rows_nonempty(x.args[2])
                out.append(self.exists1(x.args[0], x.args[1], idx(x.args[1]), c))
        return self.lor(*out)

    def unliteral(self, x):
        """A row of a literal that its guard says some term is equal to: a row of that term."""
        if x.op != 'row' or x.args[0].op not in DD:
            return x
        g, v = x.args
        vals = v.args if v.op == 'tuple' else (v,)
        lits = [a for a in vals if isinstance(a, T) and (a.op == 'enum' or is_const(a) and isinstance(cval(a), str))]
        if not lits:
            return x
        k = (g, frozenset(lits))
        mp = self.unlit_memo.get(k)
        if mp is None:
            mp, seen, todo = {}, set(), [g]
            tests = set()
            while todo and len(seen) < 400:
                d = todo.pop()
                if d in seen or d.op not in DD:
                    continue
                seen.add(d)
                todo.extend(self.children(d))
                if d.op == 'V':
                    tests.update((d.args[0], l) for l, _ in d.args[1] if l in lits)
            for t, l in sorted(tests, key=lambda p: (depth(p[0]), sort_key(p[0]))):
                if l not in mp and self.land(g, self.lnot(self.mkV(t, ((l, TRUE),), FALSE))) is FALSE:
                    mp[l] = t
            self.unlit_memo[k] = mp
        if not mp:
            return x
        vals = [mp.get(a, a) for a in vals]
        return raw('row', g, raw('tuple', *vals) if v.op == 'tuple' else vals[0])

    def mk_rows(self, items, mode):
        items = [self.unliteral(x) for x in items]
        if mode in ('set', 'bag'):
            items = self.flatten(items)
        if mode == 'set':
            best = {}
            for x in items:
                k, g = self.row_key(x)
                best[k] = self.lor(best[k], g) if k in best else g
            out = [self.with_guard(k, g) for k, g in best.items() if g is not FALSE]
            return raw('rows', *sorted(out, key=sort_key))
        if mode == 'bag':
            out = []
            for x in items:
                x = self.once(x)
                k, g = self.row_key(x)
                for n, (k2, g2) in enumerate(out):
                    if k2 is k and self.land(g, g2) is FALSE:
                        out[n] = (k, self.lor(g, g2))
                        break
                else:
                    out.append((k, g))
            return raw('rows', *sorted([self.with_guard(k, g) for k, g in out], key=sort_key))
        return raw('rows', *self.trace_normal(list(items)))

    def flatten(self, items):
        """Every leaf row in its own loop nest."""
        out = []
        for x in items:
            if x.op in ('row', 'spr'):
                out.append(x)
            else:
                for y in self.flatten(x.args[2].args):
                    out.append(raw('for', x.args[0], x.args[1], raw('rows', y)))
        return out

    def once(self, x):
        """Writing the same value in every iteration is writing it once."""
        if x.op != 'for':
            return x
        y = self.once(x.args[2].args[0])
        if y.op == 'row' and y.args[1].op == 'tuple' and y.args[1].args and y.args[1].args[0] is SETATTR and \
                not mentions(y.args[1], idx(x.args[1])):
            return raw('row', self.exists1(x.args[0], x.args[1], idx(x.args[1]), y.args[0]), y.args[1])
        return raw('for', x.args[0], x.args[1], raw('rows', y))

    def row_key(self, x):
        if x.op in ('row', 'spr'):
            return raw(x.op, TRUE, x.args[1]), x.args[0]
        k, g = self.row_key(x.args[2].args[0])
        return raw('for', x.args[0], x.args[1], raw('rows', k)), g

    def with_guard(self, k, g):
        if k.op in ('row', 'spr'):
            return raw(k.op, g, k.args[1])
        return raw('for', k.args[0], k.args[1], raw('rows', self.with_guard(k.args[2].args[0], g)))

    def may(self, x):
        """Over-approximation of the condition under which an item yields something (loop-free part)."""
        if x.op in ('row', 'spr'):
            return x.args[0]
        r = FALSE
        for y in x.args[2].args:
            r = self.lor(r, self.may(y))
        return self.project(r, idx(x.args[1]))

    def project(self, d, i):
        memo = {}

        def go(n):
            if n.op not in DD:
                return n
            r = memo.get(n)
            if r is None:
                chs = self.children(n)
                if mentions(n.args[0], i):
                    r = self.lor(*[go(c) for c in chs])
                elif n.op == 'B':
                    r = self.ite(raw('B', n.args[0], TRUE, FALSE), go(n.args[1]), go(n.args[2]))
                elif n.op == 'V':
                    r = go(n.args[2])
                    for l, c in n.args[1]:
                        r = self.ite(raw('V', n.args[0], ((l, TRUE),), FALSE), go(c), r)
                else:
                    r = go(n.args[2][0])
                    for c, ch in zip(n.args[1], n.args[2][1:]):
                        r = self.ite(raw('N', n.args[0], (c,), (FALSE, TRUE)), go(ch), r)
                memo[n] = r
            return r

        return go(d)

    def trace_normal(self, items):
        """Exclusive neighbours commute: lexicographic normal form, equal exclusive rows merged."""
        if len(items) <= 1:
            return items
        if len(items) > 160:
            self.coarse += 1
            return items
        mays = [self.may(x) for x in items]
        keys = []
        for x in items:
            if x.op in ('row', 'spr'):
                keys.append(sort_key(raw(x.op, TRUE, x.args[1])))
            else:
                keys.append(sort_key(raw('for', x.args[0], x.args[1])))
        n = len(items)
        conf = [[False] * n for _ in range(n)]
        for i in range(n):
            for j in range(i):
                conf[i][j] = self.land(mays[i], mays[j]) is not FALSE
        left = list(range(n))
        out = []
        while left:
            cand = [j for j in left if not any(conf[j][k] for k in left if k < j)]
            best = min(cand, key=lambda j: (keys[j], j))
            cur = items[best]
            left.remove(best)
            # merge the rows of the same value that can follow directly
            again = True
            while again:
                again = False
                for j in list(left):
                    if keys[j] == keys[best] and not any(conf[j][k] for k in left if k < j):
                        if cur.op in ('row', 'spr') and items[j].op == cur.op and self.land(cur.args[0], items[j].args[0]) is FALSE:
                            cur = raw(cur.op, self.lor(cur.args[0], items[j].args[0]), cur.args[1])
                        elif cur.op == 'for' and items[j].op == 'for' and not conf[max(j, best)][min(j, best)]:
                            cur = raw('for', cur.args[0], cur.args[1],
                                      self.mk_rows(list(cur.args[2].args) + list(items[j].args[2].args), 'seq'))
                        else:
                            continue
                        left.remove(j)
                        again = True
                        break
            out.append(cur)
        return out

    def sumof(self, seq):
        """Canonical sum of a numeric sequence."""
        items = self.items(seq, TRUE, 'bag')
        total = []
        rest = []
        for x in self.flatten(items):
            if x.op == 'row' and x.args[0] is TRUE:
                total.append((x.args[1], 1))
            elif x.op == 'row' and is_num(x.args[1]) and cval(x.args[1]) == 0:
                continue
            elif x.op == 'for' and x.args[2].args[0].op == 'row' and x.args[2].args[0].args[0] is TRUE and \
                    not mentions(x.args[2].args[0].args[1], idx(x.args[1])):
                v = x.args[2].args[0].args[1]
                n = self.f_len(x.args[0])
                if n.op not in DD and v.op not in DD:
                    total.append((tm.mk_mul(v, n), 1))
                else:
                    rest.append(x)
            elif x.op == 'spr' and False:
                pass
            else:
                k, _ = self.row_key(x)
                while k.op == 'for':
                    k = k.args[2].args[0]
                if k.op == 'row' and is_num(k.args[1]) and cval(k.args[1]) == 0:
                    continue
                rest.append(x)
        out = total
        # coefficients: constant factors of rows are pulled out
        if rest:
            rows = self.mk_rows(rest, 'bag')
            out = out + [(raw('sumof', rows), 1)]
        return tm.mk_lin(0, out)

    # -- back to engine terms ------------------------------------------------------------------------

    def term(self, d, memo=None):
        """Engine term denoted by a canonical term."""
        if memo is None:
            memo = self.__dict__.setdefault('term_memo', {})
        r = memo.get(d)
        if r is None:
            r = self._term(d, memo)
            memo[d] = r
        return r

    def _term(self, d, memo):
        op = d.op
        f = lambda x: self.term(x, memo)
        if op == 'V':
            r = f(d.args[2])
            by = {}
            for l, c in d.args[1]:
                by.setdefault(c, []).append(l)
            for c, ls in by.items():
                r = mk_ite(mk_memb(f(d.args[0]), frozenset(ls)), f(c), r)
            return r
        if op == 'N':
            x = f(d.args[0])
            r = f(d.args[2][0])
            for (n, strict), c in zip(d.args[1], d.args[2][1:]):
                if x.op == 'len' and (n, strict) == (1, 0):
                    t = tm.mk_nonempty(x.args[0]) if x.args[0].op not in ('attr', 'sym', 'item', 'call') else tm.truthy(x.args[0])
                else:
                    t = tm._cmp_lin('lt' if strict else 'le', const(n), x) if x.op == 'lin' else \
                        raw('lt' if strict else 'le', const(n), x)
                r = mk_ite(t, f(c), r)
            return r
        if op == 'lin':
            return tm.mk_lin(d.args[0], [(f(t), k) for t, k in d.args[1]])
        if op == 'B':
            return mk_ite(f(d.args[0]), f(d.args[1]), f(d.args[2]))
        if op in ('list', 'set', 'dict'):
            return raw(op, self.seq_term(d.args[0], memo))
        if op == 'sumof' and d.args[0].op == 'rows':
            return raw('sumof', self.seq_term(d.args[0], memo))
        if op == 'rows':
            return raw('list', self.seq_term(d, memo))
        if op == 'obj':
            return raw('obj', d.args[0], tuple((k, f(v)) for k, v in d.args[1]), raw('oid'))
        if not d.args:
            return d

        def sub(a):
            if isinstance(a, T):
                return f(a)
            if isinstance(a, tuple):
                return tuple(sub(b) for b in a)
            if isinstance(a, frozenset):
                return frozenset(sub(b) for b in a)
            return a

        return raw(op, *[sub(a) for a in d.args])

    def seq_term(self, rows, memo):
        out = []
        for x in rows.args:
            if x.op == 'row':
                out.append(seq_ite(self.term(x.args[0], memo), one(self.term(x.args[1], memo)), EMPTY))
            elif x.op == 'spr':
                out.append(seq_ite(self.term(x.args[0], memo), raw('spread', self.term(x.args[1], memo)), EMPTY))
            else:
                b = self.seq_term(x.args[2], memo)
                if b is not EMPTY:
                    out.append(raw('fmap', self.term(x.args[0], memo), x.args[1], b))
        return mk_cat(*out)


def swap_idx(t, old, new):
    return t if old == new else reswap(t, {idx(old): idx(new)})


def text_of(*parts):
    r = tm.mk_strcat(*parts)
    return r.args[0] if r.op == 'strcat' and len(r.args) == 1 else r


_depth = {}


def depth(t):
    r = _depth.get(t)
    if r is None:
        heights_of(t)
        r = _depth[t]
    return r


def heights_of(t):
    stack = [t]
    while stack:
        x = stack[-1]
        if x in _depth:
            stack.pop()
            continue
        todo = [k for k in kids(x) if k not in _depth]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        _depth[x] = 1 + max([_depth[k] for k in kids(x)] or [0])


def lit_len(lit):
    if is_const(lit):
        v = cval(lit)
        if v is None or v is False:
            return 0
        if v is True:
            return 1
        if isinstance(v, (str, tuple, bytes)):
            return len(v)
        if isinstance(v, (int, float)):
            return 1 if v else 0
    if lit.op == 'enum':
        return 1 if not isinstance(lit.args[2], int) or lit.args[2] else 0
    return None


def lit_num(lit):
    if is_const(lit) and isinstance(cval(lit), (int, float)):
        return cval(lit)
    if lit.op == 'enum' and isinstance(lit.args[2], int):
        return lit.args[2]
    return None


def above(n, cut):
    return n > cut[0] if cut[1] else n >= cut[0]


def canon(t, rounds=5, mode=None):
    """Canonical term of an engine term (mode: 'set'/'bag' when the order of a list value is irrelevant)."""
    last = None
    info = {}
    for _ in range(rounds):
        t = rename(t)
        c = Canon()
        if mode and t.op in ('list', 'set') or mode and t.op in tm.SEQ_OPS:
            r = raw('list', c.rows(t.args[0] if t.op in ('list', 'set') else t, mode))
        else:
            r = c.C(t)
        info = {'coarse': c.coarse, 'nodes': c.n}
        if r is last:
            break
        last = r
        t = c.term(r)
    else:
        info['unstable'] = True
    return r, info
