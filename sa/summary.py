"""Canonical summaries of a driver: one component per observable (results, effects, calls, exceptions, files)."""
from . import terms as tm
from .analyse import run_driver
from .canon import canon
from .terms import T, raw, const, EMPTY, mk_cat, one, seq_ite, is_const, cval, subst, subterms

EFFECTS = {
    'effects': ('setattr', 'mutate'),
    'raises': ('raise', 'assert'),
    'files': ('open', 'with_open', 'fileop'),
    'calls': ('call',),
    'stages': ('setattr', 'call'),
    'threads': ('thread_start', 'thread_join', 'join_timeout'),
}


def number(t):
    """Objects made by library constructors, numbered by where they first occur."""
    ids, seen, stack = {}, set(), [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'newid':
            ids[x] = const('#%d' % len(ids))
        stack.extend(reversed(list(tm.kids(x))))
    return subst(t, ids) if ids else t


def events_seq(events, kinds, attrs=None):
    parts = []
    local = raw('localref')

    def anon(t):
        refs = {x: local for x in subterms(t) if x.op == 'ref'}
        return number(subst(t, refs) if refs else t)

    if kinds == EFFECTS['stages']:
        return stages(events, anon)
    for e in events:
        if e.kind not in kinds:
            continue
        if attrs and (len(e.data) < 2 or not is_const(e.data[1]) or cval(e.data[1]) not in attrs):
            continue
        data = [d if isinstance(d, T) else const(d) for d in e.data]
        if e.kind in ('thread_start', 'thread_join'):
            data = []         # (which results are read, and when, shows in the value)
        s = seq_ite(e.pc, leaf(e.kind, data), EMPTY)
        for src, lid in reversed(e.ctx):
            if s is not EMPTY:
                s = raw('fmap', src, lid, s)
        parts.append(anon(s))
    return mk_cat(*parts)


def leaf(kind, data):
    if kind == 'mutate' and len(data) == 4 and data[2] is const('extend') and data[3].op == 'list':
        # an extension is a series of appends
        r = tm.over_seq(data[3].args[0], lambda v: one(raw('tuple', const(kind), data[0], data[1], const('append'), v)))
        if r is not None:
            return r
    return one(raw('tuple', const(kind), *data))


PURE = ('contract.Standardizer', 'contract.Lemmatizer')


def written(s):
    """Names of the attributes that a sequence of writes sets."""
    return sorted(set(str(cval(x.args[2])) for x in subterms(s) if x.op == 'tuple' and len(x.args) == 4 and
                      x.args[0] is const('setattr') and is_const(x.args[2])))


def stages(events, anon):
    """The impure calls of the stages and the writes between them, in order, loops kept whole.

    A loop that only writes attributes is split (its writes do not interact); calls of pure stages are no events."""
    evs = []
    for e in events:
        if e.kind == 'call':
            f = e.data[0].args[0]
            if f.op == 'libcall' and f.args[0] in PURE:
                continue
        elif e.kind != 'setattr':
            continue
        evs.append(e)

    def leaf(e):
        return seq_ite(e.pc, one(raw('tuple', const(e.kind), *[d if isinstance(d, T) else const(d) for d in e.data])), EMPTY)

    def build(group, depth):
        """[(sequence, only writes?)] of consecutive events below one loop"""
        out = []
        i = 0
        while i < len(group):
            e = group[i]
            if len(e.ctx) <= depth:
                out.append((leaf(e), e.kind == 'setattr'))
                i += 1
                continue
            lid = e.ctx[depth][1]
            j = i
            while j < len(group) and len(group[j].ctx) > depth and group[j].ctx[depth][1] == lid:
                j += 1
            inner = build(group[i:j], depth + 1)
            src = e.ctx[depth][0]
            if all(w for _, w in inner):
                out += [(raw('fmap', src, lid, s), True) for s, _ in inner if s is not EMPTY]
            else:
                body = mk_cat(*[s for s, _ in settle(inner)])
                out.append((raw('fmap', src, lid, body), False))
            i = j
        return out

    def settle(parts):
        # adjacent writes in any order
        res, run = [], []
        for s, w in parts + [(None, False)]:
            if w:
                run.append(s)
                continue
            if run:
                res += [(x, True) for x in sorted(run, key=lambda x: (written(x), tm.sort_key(x)))]
                run = []
            if s is not None:
                res.append((s, w))
        return res

    return anon(mk_cat(*[s for s, _ in settle(build(evs, 0))]))


class Summary(object):
    def __init__(self, name, root, src=None):
        self.name = name
        self.r = run_driver(name, root, src)
        self.parts = {}
        self.info = {}
        self.names = self.component_names()

    def component_names(self):
        v = self.r.value
        out = ['value']
        if v.op == 'tuple' and len(v.args) > 1:
            out = ['value%d' % n for n in range(len(v.args))]
        for k in EFFECTS:
            if k != 'stages' and any(e.kind in EFFECTS[k] for e in self.r.events) or k == 'stages' and self.name == 'logic1':
                out.append(k)
        return out

    def get(self, comp, mode=None, attrs=None):
        key = (comp, mode, attrs)
        if key in self.parts:
            return self.parts[key]
        if comp in EFFECTS:
            t = events_seq(self.r.events, EFFECTS[comp], attrs)
            m = None if mode == 'seq' else 'bag'
            if t is EMPTY:
                c, info = raw('list', raw('rows')), {}
            else:
                c, info = canon(raw('list', t), mode=m)
        else:
            v = self.r.value
            if comp != 'value':
                n = int(comp[5:])
                v = v.args[n] if v.op == 'tuple' and n < len(v.args) else raw('item', v, const(n))
            elif v.op == 'tuple' and False:
                pass
            c, info = canon(number(v), mode=mode if mode in ('bag', 'set') else None)
        self.parts[key] = c
        self.info[key] = info
        return c
