"""Comparison of two canonical summaries: the specified one (a) and the one of the analysed tree (b).

The comparison either proves both equal, or explains where they part and how sure it is that the difference is one of
behaviour (see `judge`)."""
import ast
import os

from . import terms as tm
from .canon import Canon, canon, DD, Budget, BINDERS
from .show import show
from .terms import T, raw, const, TRUE, FALSE, NONE, EMPTY, idx, kids, subterms, sort_key, is_const, cval

IMPRECISE = {'top', 'disc', 'discc', 'acc', 'lv', 'lvseq', 'undef', 'midloop', 'duringwhile', 'func', 'bound', 'garbage',
             'recval', 'module'}

OPPOSITE = ({'maxof', 'minof'}, {'argmax', 'argmin'}, {'startswith', 'endswith'})
BOTH = {'midloop', 'garbage', 'recval'}

# operations whose meaning the canonical form knows well enough to call a difference a difference
CORE = {'const', 'sym', 'idx', 'tuple', 'list', 'set', 'dict', 'rows', 'row', 'for', 'spr', 'V', 'N', 'B', 'item', 'attr',
        'lin', 'len', 'enum', 'eq', 'lt', 'le', 'in', 'exists', 'obj', 'oid', 'strcat', 'call', 'memb', 'truthy',
        'nonempty', 'not', 'and', 'or', 'ite', 'isnone', 'init', 'karg', 'app', 'appset', 'inc', 'sumof', 'firstidx', 'lastof',
        'mul', 'range', 'anon', 'is'}

UNDEF = raw('sym', '#elsewhere')

# conversions that usually change nothing: a value wrapped in one of these is not called different
NEUTRAL = {'tolist', 'list', 'tuple', 'str', 'bool', 'int', 'iter', 'copy', 'float', 'nparray'}


class Div(object):
    def __init__(self, kind, path, a, b, witness=(), a_all=None, b_all=None):
        self.kind, self.path, self.a, self.b, self.witness = kind, path, a, b, tuple(witness)
        self.sure, self.why = None, ''

    def text(self, limit=400):
        s = self.kind
        if self.path:
            s += ' in ' + ' / '.join(self.path[-4:])
        if self.witness:
            s += ' when ' + ' and '.join(self.witness)
        s += ': specified %s, found %s' % (show(self.a, limit) if self.a is not None else 'nothing',
                                           show(self.b, limit) if self.b is not None else 'nothing')
        return s


_n = [0]


def fresh():
    _n[0] += 1
    return 'K%d' % _n[0]


def swap(t, mp):
    """Structural replacement without simplification."""
    memo = dict(mp)

    def arg(a):
        if isinstance(a, T):
            return go(a)
        if isinstance(a, tuple):
            return tuple(arg(b) for b in a)
        if isinstance(a, frozenset):
            return frozenset(arg(b) for b in a)
        return a

    def go(x):
        r = memo.get(x)
        if r is None:
            r = raw(x.op, *[arg(a) for a in x.args]) if x.args else x
            memo[x] = r
        return r

    return go(t)


def relabel(t, old, new):
    """The variables bound by the binder `old` become those of `new`."""
    memo = {}

    def arg(a):
        if isinstance(a, T):
            return go(a)
        if isinstance(a, tuple):
            return tuple(arg(b) for b in a)
        if isinstance(a, frozenset):
            return frozenset(arg(b) for b in a)
        return a

    def go(x):
        r = memo.get(x)
        if r is None:
            args = [arg(a) for a in x.args]
            if x.op in tm.BOUND and args and args[0] == old:
                args[0] = new
            r = memo[x] = raw(x.op, *args) if x.args else x
        return r

    return go(t)


class Cmp(object):
    def __init__(self, mode='seq'):
        self.c = Canon()
        self.mode = mode
        self.top = True      # among the rows the mode speaks of (not inside one of their values)
        self.out = []
        self.budget = 60
        self.care = TRUE     # the conditions of the rows whose values are being compared
        self.part_memo = {}

    def add(self, *a, **k):
        if len(self.out) < self.budget:
            self.out.append(Div(*a, **k))

    def go(self, a, b, path, wit=()):
        if a is b or len(self.out) >= self.budget:
            return
        if a.op in DD or b.op in DD:
            return self.diagrams(a, b, path, wit)
        if a.op == b.op and a.op in ('list', 'set', 'dict', 'sumof'):
            if a.args[0].op == 'rows' and b.args[0].op == 'rows':
                return self.rows(a.args[0], b.args[0], path, wit, 'seq' if a.op in ('list', 'dict') else 'set')
        if a.op == b.op == 'obj':
            if a.args[0] == b.args[0] and [k for k, _ in a.args[1]] == [k for k, _ in b.args[1]]:
                for (k, x), (_, y) in zip(a.args[1], b.args[1]):
                    self.go(x, y, path + [k], wit)
                return
            return self.add('object', path, a, b, wit)
        if a.op == b.op and a.op in BINDERS and a.op != 'fmap':
            return self.binder(a, b, path, wit)
        if a.op == b.op == 'wout' and a.args[0].op == b.args[0].op == 'while':
            if a.args[0] is b.args[0]:
                return self.add('value', path, a, b, wit)
            return self.binder(a.args[0], b.args[0], path, wit, {a.args[1]: b.args[1]})
        if a.op == b.op == 'strcat':
            return self.add('text', path, a, b, wit)
        if a.op == b.op == 'lin' and a.args[0] == b.args[0]:
            x, y = [p for p in a.args[1] if p not in b.args[1]], [p for p in b.args[1] if p not in a.args[1]]
            if len(x) == len(y) == 1 and x[0][1] == y[0][1] and x[0][0].op == y[0][0].op:
                return self.go(x[0][0], y[0][0], path, wit)
        if a.op == b.op and len(a.args) == len(b.args) and a.op not in ('const', 'enum', 'sym', 'lin', 'idx', 'foldv', 'wv'):
            before = len(self.out)
            for n, (x, y) in enumerate(zip(a.args, b.args)):
                if x is y or x == y:
                    continue
                if isinstance(x, T) and isinstance(y, T):
                    self.go(x, y, path + [label(a, n)], wit)
                elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and \
                        all(isinstance(u, T) and isinstance(v, T) for u, v in zip(x, y)):
                    for m, (u, v) in enumerate(zip(x, y)):
                        self.go(u, v, path + [label(a, n, m)], wit)
                else:
                    del self.out[before:]
                    return self.add('value', path, a, b, wit)
            if a.op == 'item' and a.args[0] is not b.args[0] and a.args[1] is not b.args[1]:
                for d in self.out[before:]:
                    d.loose = 'both the collection and the key differ'
            return
        self.add('value', path, a, b, wit)

    def binder(self, a, b, path, wit, known=None):
        p = BINDERS[a.op]
        if a.op in ('fold', 'while', 'fix'):
            if not comparable_loops(a, b):
                return self.add('loop', path, a, b, wit)
            if a.op == 'fix':
                k = fresh()
                for n in (2, 3):
                    xs, ys = (a.args[n], b.args[n]) if n == 3 else ((a.args[n],), (b.args[n],))
                    for x, y in zip(xs, ys):
                        x, y = self.recanon(relabel(x, a.args[0], k)), self.recanon(relabel(y, b.args[0], k))
                        if x is not y:
                            self.go(x, y, path + ['in the recursion'], wit)
                return
            c = align(a, b, known or ({0: 0} if a.op == 'fold' else {}))
            if c is None:
                return self.add('loop', path, a, b, wit)
            b = c
            # the same state: compare what each iteration does to it
            k = fresh()
            mark = 'foldv' if a.op == 'fold' else 'wv'
            ren = [{raw(mark, t.args[p], n): raw(mark, k, n) for n in range(len(t.args[3].args))} for t in (a, b)]
            for m, t in zip(ren, (a, b)):
                m[idx(t.args[p])] = idx(k)
            if a.op == 'fold' and a.args[0] is not b.args[0]:
                # another source: do the loops do the same with its elements?
                el = raw('sym', '#element')
                els = [dict(m) for m in ren]
                for m, t in zip(els, (a, b)):
                    m[raw('item', t.args[0], idx(t.args[p]))] = el
                    m[t.args[0]] = raw('sym', '#source')
                x, y = self.recanon(swap(a.args[2], els[0])), self.recanon(swap(b.args[2], els[1]))
                if x is y:
                    self.go(a.args[0], b.args[0], path + ['loop over'], wit)
                    return self.go(a.args[3], b.args[3], path + ['initially'], wit)
                return self.add('loop', path, a, b, wit)
            for n in range(len(a.args)):
                if n == p or a.args[n] is b.args[n]:
                    continue
                x, y = a.args[n], b.args[n]
                if not (a.op == 'fold' and n == 3):
                    x, y = self.recanon(swap(x, ren[0])), self.recanon(swap(y, ren[1]))
                self.go(x, y, path + ['initially' if n == 3 else 'in the loop'], wit)
            return
        if a.args[0] is not b.args[0]:
            return self.go(a.args[0], b.args[0], path + [a.op], wit)
        k = fresh()
        n = len(a.args) - 1
        self.go(self.recanon(swap(a.args[n], {idx(a.args[p]): idx(k)})), self.recanon(swap(b.args[n], {idx(b.args[p]): idx(k)})),
                path + [a.op], wit)

    def recanon(self, t):
        r, _ = canon(self.c.term(t))
        return r

    # -- diagrams ----------------------------------------------------------------------------------

    def diagrams(self, a, b, path, wit):
        """Walks both diagrams together; every pair of different outcomes under one feasible path is a difference."""
        c = self.c
        found, seen = [], set()
        steps = [0]
        if self.care is not TRUE:
            a0, b0 = a, b
            try:
                a, b = self.cared(a), self.cared(b)
            except Budget:
                a, b = a0, b0
            if a is b:
                return

        def cases(v, x, y):
            """(facts, label) of the outcomes of the test of v"""
            mine = [d for d in (x, y) if d.op == v.op and d.args[0] is v.args[0]]
            t = v.args[0]
            name = show(t, 120)
            if v.op == 'B':
                for i, val in ((1, True), (2, False)):
                    yield (('B', t, val) if t.op in ('endswith', 'startswith') else None), \
                        ('' if val else 'not ') + show(t, 160), [d.args[i] if d in mine else d for d in (x, y)]
                return
            if v.op == 'V':
                lits = []
                for d in mine:
                    lits += [l for l, _ in d.args[1] if l not in lits]
                for l in lits:
                    yield ('V', t, l), '%s is %s' % (name, show(l, 40)), [dict(d.args[1]).get(l, d.args[2]) if d in mine else d
                                                                       for d in (x, y)]
                yield ('Vnot', t, frozenset(lits)), '%s is none of %s' % (name, ', '.join(show(l, 20) for l in lits)), \
                    [d.args[2] if d in mine else d for d in (x, y)]
                return
            cuts = sorted(set(k for d in mine for k in d.args[1]))
            for i in range(len(cuts) + 1):
                lo = cuts[i - 1] if i else None
                hi = cuts[i] if i < len(cuts) else None
                w = ' and '.join(z for z in ('%s %s %s' % (name, '>' if lo[1] else '>=', lo[0]) if lo else '',
                                             '%s %s %s' % (name, '<=' if hi[1] else '<', hi[0]) if hi else '') if z)
                yield ('N', t, lo, hi), w, [d.args[2][sum(1 for k in d.args[1] if lo is not None and k <= lo)] if d in mine else d
                                            for d in (x, y)]

        def walk(x, y, w):
            if x is y or (x, y) in seen or len(found) >= 12:
                return
            seen.add((x, y))
            steps[0] += 1
            if steps[0] > 60000:
                raise Budget()
            v = c.top_var((x, y))
            if v is None:
                if not any(p[0] is x and p[1] is y for p in found):
                    found.append((x, y, w))
                return
            for fact, text, (x2, y2) in cases(v, x, y):
                if fact is not None:
                    x2, y2 = c.assume(x2, fact), c.assume(y2, fact)
                walk(x2, y2, w + [text])

        try:
            walk(a, b, [])
        except Budget:
            if not found:
                return self.add('too big', path, a, b, wit)
        for x, y, w in found:
            w = list(wit) + w
            if x in (TRUE, FALSE) and y in (TRUE, FALSE):
                self.add('condition', path, a, b, w)
            else:
                before = len(self.out)
                self.go(x, y, path, w)
                for dv in self.out[before:]:
                    dv.diagram = (a, b)

    def cared(self, d):
        """d where it matters"""
        return self.c.apply(lambda g, v: v if g is TRUE else UNDEF, [self.care, d])

    def never(self, g):
        if self.care is TRUE:
            return False
        try:
            return self.c.apply(lambda g, v: TRUE if g is TRUE and v is TRUE else FALSE, [self.care, g]) is FALSE
        except Budget:
            return False

    # -- rows -----------------------------------------------------------------------------------------

    def rows(self, a, b, path, wit, mode):
        A, B = list(a.args), list(b.args)
        if self.care is not TRUE:
            A, B = ([r for r in l if r.op not in ('row', 'spr') or not self.never(r.args[0])] for l in (A, B))
            if A == B:
                return
        ra, rb = list(A), list(B)
        for x in A:
            if x in rb:
                rb.remove(x)
                ra.remove(x)
        if not ra and not rb:
            if mode == 'seq' and (self.mode == 'seq' or not self.top):
                return self.add('order', path, raw('rows', *A), raw('rows', *B), wit)
            return
        loose = []
        for kind in ('value', 'guard', 'loop'):
            for x in list(ra):
                best = None
                for y in rb:
                    if x.op != y.op:
                        continue
                    if x.op in ('row', 'spr'):
                        if kind == 'value' and x.args[1] is y.args[1] or kind == 'guard' and x.args[0] is y.args[0]:
                            best = y
                            break
                    elif kind == 'value' and x.args[0] is y.args[0]:
                        best = y
                        if len([z for z in ra if z.op == 'for' and z.args[0] is x.args[0]]) > 1:
                            best = self.closest(x, [z for z in rb if z.op == 'for' and z.args[0] is x.args[0]])
                        break
                if best is None:
                    continue
                ra.remove(x)
                rb.remove(best)
                before = len(self.out)
                self.pair(x, best, path, wit)
                if x.op == 'spr':
                    loose += self.out[before:]
        if len(ra) == len(rb) == 1 and ra[0].op == rb[0].op:
            return self.pair(ra[0], rb[0], path, wit)
        # rows that are much alike belong together
        while ra and rb and len(ra) * len(rb) <= 400:
            best = max(((self.alike(x, y), n, m) for n, x in enumerate(ra) for m, y in enumerate(rb) if x.op == y.op),
                       default=(0, 0, 0), key=lambda p: (p[0], -p[1], -p[2]))
            if best[0] < 0.5:
                break
            x, y = ra.pop(best[1]), rb.pop(best[2])
            before = len(self.out)
            self.pair(x, y, path, wit)
            loose += self.out[before:]
        for x in ra:
            self.add('missing', path, x, None, wit)
        for y in rb:
            self.add('extra', path, None, y, wit)
        if ra or rb:
            self.out[-1].group = [d for d in self.out if d.path == path and d.kind in ('missing', 'extra')] + loose

    def alike(self, x, y):
        if x.op in ('row', 'spr'):
            x, y = x.args[1], y.args[1]
            if x.op != y.op or x.op == 'tuple' and (len(x.args) != len(y.args) or x.args[:1] != y.args[:1]):
                return 0
        sx, sy = self.parts(x), self.parts(y)
        return len(sx & sy) / float(len(sx | sy))

    def parts(self, x):
        r = self.part_memo.get(x)
        if r is None:
            r = self.part_memo[x] = frozenset(subterms(x))
        return r

    def closest(self, x, cands):
        sx = set(subterms(x))
        return max(cands, key=lambda y: (len(sx & set(subterms(y))) / (1.0 + len(set(subterms(y)))), sort_key(y)))

    def pair(self, x, y, path, wit):
        top = self.top
        self.top = top and x.op == 'for' and x.args[0] is y.args[0]
        self.pair_(x, y, path, wit)
        self.top = top

    def pair_(self, x, y, path, wit):
        if x.op in ('row', 'spr'):
            if x.args[1] is not y.args[1]:
                care = self.care
                try:
                    self.care = self.c.apply(lambda *g: TRUE if all(v is TRUE for v in g) else FALSE,
                                             [care, x.args[0], y.args[0]])
                except Budget:
                    pass
                if self.care is FALSE:
                    self.care = care
                self.go(x.args[1], y.args[1], path, wit)
                self.care = care
            if x.args[0] is not y.args[0]:
                self.go(x.args[0], y.args[0], path + ['element ' + show(x.args[1], 100)], wit)
            return
        if x.args[0] is not y.args[0]:
            before = len(self.out)
            self.go(x.args[0], y.args[0], path + ['loop over ' + show(x.args[0], 60)], wit)
            sx, sy = x.args[0], y.args[0]
            same = sx if parallel(sx, sy) else sy if parallel(sy, sx) else None
            why = 'the loops do different things' if self.body(x, same or sx) is not self.body(y, same or sy) else \
                'equally long' if same else ''
            if why:
                for d in self.out[before:]:
                    d.loose = why
                    d.soft = why == 'equally long'
            return
        k = fresh()
        mode = 'bag' if self.mode != 'seq' and self.top else None
        a, _ = canon(raw('list', self.c.seq_term(swap(x.args[2], {idx(x.args[1]): idx(k)}), {})), mode=mode)
        b, _ = canon(raw('list', self.c.seq_term(swap(y.args[2], {idx(y.args[1]): idx(k)}), {})), mode=mode)
        if a is b:
            return
        self.go(a, b, path + ['each of ' + show(x.args[0], 80)], wit)


    def body(self, x, src):
        """What a loop does with the elements, whatever it goes through."""
        lid = x.args[1]
        mp = {raw('item', src, idx(lid)): raw('sym', '#element'), src: raw('sym', '#source'), idx(lid): raw('sym', '#index')}
        return canon(raw('list', self.c.seq_term(swap(x.args[2], mp), {})))[0]


def parallel(x, z):
    """z = zip(x, results of calls): as long as x when the results are."""
    if z.op != 'zip':
        return False
    args = [shape(a) for a in z.args]
    return x in args and all(a is x or a.op not in ('slice', 'range', 'reversed', 'sorted') or a in subterms(x) for a in args)


def shape(a):
    """The sequence that a list has one element for each element of."""
    while a.op == 'list' and a.args[0].op == 'rows' and len(a.args[0].args) == 1 and a.args[0].args[0].op == 'for':
        f = a.args[0].args[0]
        if not (f.args[2].op == 'rows' and len(f.args[2].args) == 1 and f.args[2].args[0].op == 'row' and
                f.args[2].args[0].args[0] is TRUE):
            break
        a = f.args[0]
    return a


def label(t, n, m=None):
    if t.op == 'tuple':
        return '#%d' % n
    if t.op == 'call':
        return 'argument %s of %s' % (m if m is not None else n, show(t.args[0], 60))
    return '%s argument %d' % (t.op, n)


# -----------------------------------------------------------------------------------------------------
# vocabulary
# -----------------------------------------------------------------------------------------------------

def words(t):
    """Descriptors of the operations a term is made of."""
    out = set()
    for x in subterms(t):
        if x.op == 'attr':
            out.add(('attr', x.args[1]))
        elif x.op in ('strm', 'libcall', 'extcall', 'libfun', 'enumof', 'enumbyname', 'lib', 'dictm', 'listm'):
            out.add((x.op, x.args[0] if not isinstance(x.args[0], T) else x.args[0].op))
        elif x.op == 'sym':
            out.add(('sym', x.args[0]))
        elif x.op == 'obj':
            out.add(('obj', x.args[0]))
        elif x.op == 'const':
            continue
        elif x.op == 'match':
            out.add(('match', str(x.args[0])))
        elif x.op == 'str' and x.args[0].op == 'obj':
            out.add(('strobj', ''))
        else:
            out.add((x.op, ''))
    return out


def novel(t, vocab):
    return sorted(str(w) for w in words(t) if w not in vocab and w[0] != 'sym' and (w[0] not in CORE or w[0] in ('attr', 'obj')))


def imprecise(t):
    return sorted(set(x.op for x in subterms(t) if x.op in IMPRECISE or x.op == 'fixpar' and not isinstance(x.args[0], str)))


_known = []


def package_words():
    """Attributes of the specified package, and text operations that are never another form of something else."""
    if not _known:
        out = {('match', m) for m in ('match', 'fullmatch', 'search')}
        out |= {('strobj', ''), ('sorted', ''), ('reversed', ''), ('last', ''), ('argmax', ''), ('argmin', '')}
        out |= {('strm', m) for m in ('lower', 'upper', 'capitalize', 'title', 'swapcase', 'strip', 'lstrip', 'rstrip')}
        base = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'ref')
        for d, _, fs in os.walk(base):
            for f in fs:
                if f.endswith('.py'):
                    for n in ast.walk(ast.parse(open(os.path.join(d, f), encoding='utf-8').read())):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                            out.add(('attr', n.attr))
        _known.append(out)
    return _known[0]


def judge(divs, vocab, both=frozenset()):
    """Decide for each divergence whether it certainly is a change of behaviour."""
    for d in divs:
        d.sure = True
        if getattr(d, 'loose', None):
            d.sure, d.why = False, d.loose
            continue
        if d.kind == 'too big':
            d.sure, d.why = False, 'diagram too big'
            continue
        ia = set(imprecise(d.a)) if d.a is not None else set()
        ib = set(imprecise(d.b)) if d.b is not None else set()
        if d.kind == 'order':
            bad = (ia | ib) & {'top'}
        else:
            # values read in the middle of a loop (or of new arrays) are the same unknown on both sides
            bad = (ia | ib) - both if d.a is not None and d.b is not None else (ia | ib) - BOTH
        if bad:
            d.sure, d.why = False, 'imprecise (%s)' % ', '.join(sorted(bad))
        if not d.sure:
            continue
        if d.b is not None:
            nov = novel(d.b, vocab)
            dg = getattr(d, 'diagram', None)
            if not nov and dg is not None:
                nov = novel_vars(dg[0], dg[1], vocab, both)
            if d.kind == 'condition':
                nov = novel_vars(d.a, d.b, vocab, both)
            if nov:
                if d.kind == 'value' and wraps(d.a, d.b):
                    d.why = 'applies a further operation'
                elif d.kind == 'value' and {d.a.op, d.b.op} in OPPOSITE and d.a.args == d.b.args:
                    d.why = 'applies the opposite operation'
                else:
                    d.sure, d.why = False, 'unfamiliar operations (%s)' % ', '.join(nov[:4])
                    continue
        if d.kind == 'loop':
            d.sure, d.why = False, 'loops of different shape'
            continue
    # rows that could not be paired: an unfamiliar extra row may stand for a missing one
    for d in divs:
        for g in [getattr(d, 'group', None)]:
            if g and any(not x.sure for x in g):
                for x in g:
                    if x.sure and x.kind in ('missing', 'extra'):
                        x.sure, x.why = False, 'next to an unfamiliar row'
    return divs


def wraps(a, b):
    """b applies a non-neutral operation to a."""
    if b.op in NEUTRAL or b.op in DD:
        return False
    if b.op == 'strm' and b.args[0] in ('join',):
        return False
    if is_const(a):
        return False
    for k in kids(b):
        if k is a:
            return True
        # the same list again: [*a]
        if k.op == 'list' and k.args[0].op == 'rows' and len(k.args[0].args) == 1:
            r = k.args[0].args[0]
            if r.op == 'spr' and r.args[1] is a and r.args[0] is TRUE or r is a:
                return True
    return False


def novel_vars(a, b, vocab, both=frozenset()):
    c = Canon()
    sa = c.support(a) if a.op in DD else frozenset()
    sb = c.support(b) if b.op in DD else frozenset()
    out = []
    for k, v in sb - sa:
        out.extend(novel(v, vocab))
        if k == 'V' and v.op == 'item' and v.args[0].op == 'dict':
            out.append('a value of a dictionary is None')
        out.extend(set(imprecise(v)) - both)
    return sorted(set(out))


def align(a, b, known):
    """The loop b with its cells in the order of the corresponding cells of a; None when they do not correspond."""
    mark = 'foldv' if a.op == 'fold' else 'wv'
    p = BINDERS[a.op]
    n = len(a.args[3].args)
    if n > 12:
        return None
    blank = raw('sym', '#cell')

    def prints(t):
        mp = {raw(mark, t.args[p], k): blank for k in range(n)}
        mp[idx(t.args[p])] = raw('sym', '#index')
        if t.op == 'fold':
            mp[t.args[0]] = raw('sym', '#source')
        steps = [swap(x, mp) for x in t.args[2].args]
        return [(steps[k], t.args[3].args[k]) for k in range(n)]

    fa, fb = prints(a), prints(b)
    to = dict(known)
    left = [k for k in range(n) if k not in to.values()]
    first_a, first_b = [x for _, x in fa], [x for _, x in fb]
    for rank in (0, 1, 2, 3):
        for k in range(n):
            if k in to:
                continue
            for m in left:
                if rank == 0 and fa[k] == fb[m] or rank == 1 and fa[k][0] is fb[m][0] or \
                        rank == 2 and likeness(fa[k][0], fb[m][0]) >= 0.5 or \
                        rank == 3 and first_a[k] is first_b[m] and first_a.count(first_a[k]) == first_b.count(first_a[k]) == 1:
                    to[k] = m
                    left.remove(m)
                    break
    if len(to) < n:
        if len(left) != 1 or n - len(to) != 1:
            return None
        to[[k for k in range(n) if k not in to][0]] = left[0]
    if all(to[k] == k for k in to):
        return b
    mp = {raw(mark, b.args[p], to[k]): raw(mark, b.args[p], k) for k in range(n)}
    args = [swap(x, mp) if isinstance(x, T) else x for x in b.args]
    args[2] = raw('tuple', *[args[2].args[to[k]] for k in range(n)])
    args[3] = raw('tuple', *[b.args[3].args[to[k]] for k in range(n)])
    return raw(b.op, *args)


def likeness(x, y):
    sx, sy = set(subterms(x)), set(subterms(y))
    return len(sx & sy) / float(len(sx | sy))


def comparable_loops(a, b):
    if a.op != b.op:
        return False
    if a.op == 'fold':
        return len(a.args[3].args) == len(b.args[3].args)
    if a.op == 'while':
        return len(a.args) == len(b.args) and len(a.args[3].args) == len(b.args[3].args)
    if a.op == 'fix':
        return len(a.args[1]) == len(b.args[1]) and len(a.args[3]) == len(b.args[3])
    return True


# -----------------------------------------------------------------------------------------------------
# weakening: `x is not None` and `x` (truth value) are the same test for values without length
# -----------------------------------------------------------------------------------------------------

def number(x):
    """Can be zero: `x is not None` and `x` differ."""
    return x.op in ('firstidx', 'lastof', 'len', 'lin', 'idx') or \
        x.op == 'attr' and x.args[1] == 'root' and x.args[0].op == 'sym' and x.args[0].args[0] == 'parse'


def weaken(t):
    memo = {}

    def arg(a):
        if isinstance(a, T):
            return go(a)
        if isinstance(a, tuple):
            return tuple(arg(b) for b in a)
        if isinstance(a, frozenset):
            return frozenset(arg(b) for b in a)
        return a

    def go(x):
        r = memo.get(x)
        if r is None:
            if x.op == 'V' and not number(x.args[0]) and all(l in (NONE, const('')) for l, _ in x.args[1]) and \
                    len(set(c for _, c in x.args[1])) == 1:
                r = raw('N', raw('len', go(x.args[0])), ((1, 0),), (go(x.args[1][0][1]), go(x.args[2])))
            elif x.op == 'slice' and any(over_end(x.args[0], k) for k in x.args[1:3]):
                # s[len(s) - k:] and s[-k:]
                size = raw('len', x.args[0])
                lo, hi = [tm.lin_sub(k, size) if over_end(x.args[0], k) else k for k in x.args[1:3]]
                r = tm.mk_slice(go(x.args[0]), go(lo), go(hi), x.args[3])
            elif x.op == 'len':
                r = tm.mk_len(go(x.args[0]))
            elif x.op == 'str' or x.op == 'keys':
                r = go(x.args[0])
            elif x.op == 'slice' and x.args[1:] == (const(-1), NONE, NONE) and x.args[0].op not in ('list', 'tuple'):
                r = raw('item', go(x.args[0]), const(-1))
            elif x.op == 'list' and x.args[0].op == 'rows' and len(x.args[0].args) == 1 and \
                    x.args[0].args[0].op == 'spr' and x.args[0].args[0].args[0] is TRUE:
                r = go(x.args[0].args[0].args[1])
            elif x.op in ('for', 'exists', 'firstidx', 'lastidx', 'forall', 'count') and isinstance(x.args[0], T) and \
                    x.args[0].op == 'slice' and whole(x.args[0]):
                s = x.args[0]
                r = raw(x.op, raw('range', const(0), go(tm.lin_sub(s.args[2], s.args[1])), const(1)), *[arg(a) for a in x.args[1:]])
            else:
                r = raw(x.op, *[arg(a) for a in x.args]) if x.args else x
            memo[x] = r
        return r

    return go(t)


def whole(s):
    """x[a:b] with 0 <= a and b given from the start: as long as range(b - a) when x is long enough."""
    a, b, step = s.args[1:]
    return a.op == 'const' and type(a.args[1]) is int and a.args[1] >= 0 and b.op == 'lin' and step is NONE and \
        not any(over_end(s.args[0], k) for k in (a, b))


def over_end(base, k):
    return k.op == 'lin' and any(t is raw('len', base) and n == 1 for t, n in k.args[1])


def compare(a, b, mode='seq', local=False):
    """(equal, divergences) of two canonical terms."""
    if a is b:
        return True, []
    c = Cmp(mode)
    c.go(a, b, [])
    if not c.out:
        return True, []
    k = Canon()
    wa, _ = canon(k.term(weaken(a)), mode=None if mode == 'seq' else mode)
    wb, _ = canon(k.term(weaken(b)), mode=None if mode == 'seq' else mode)
    judge(c.out, words(a) | package_words(), BOTH & set(imprecise(a)) & set(imprecise(b)))
    if any(d.sure for d in c.out):
        # only a difference that remains when None and empty, s[len(s) - k] and s[-k], x and str(x) are taken for the same
        w = Cmp(mode)
        if wa is not wb:
            w.go(wa, wb, [])
            judge(w.out, words(wa) | package_words(), BOTH & set(imprecise(wa)) & set(imprecise(wb)))
        if not any(d.sure for d in w.out):
            for d in c.out:
                if d.sure:
                    d.sure, d.why = False, 'a difference that does not show in ordinary use'
    if local and wa is not wb and not any(d.sure for d in c.out) and 'top' not in set(imprecise(b)) - set(imprecise(a)):
        # the edit is small: nothing that the comparison would not see through
        for d in c.out:
            if d.kind != 'too big' and not getattr(d, 'soft', False):
                d.sure, d.why = True, 'local edit'
    return False, c.out
