"""Readable, size-bounded rendering of terms."""
from .terms import T


def show(t, limit=4000, names=None):
    """Text of a term; shared subterms that occur often are not repeated beyond the limit."""
    out = []
    size = [0]

    class Stop(Exception):
        pass

    def put(s):
        size[0] += len(s)
        if size[0] > limit:
            raise Stop()
        out.append(s)

    def many(xs, sep=', '):
        for n, x in enumerate(xs):
            if n:
                put(sep)
            go(x)

    def go(t):
        if not isinstance(t, T):
            if isinstance(t, tuple):
                put('(')
                many(t)
                put(')')
            elif isinstance(t, frozenset):
                put('{')
                many(sorted(t, key=repr))
                put('}')
            else:
                put(str(t))
            return
        op, a = t.op, t.args
        if op == 'const':
            put(repr(a[1]))
        elif op == 'enum':
            put('%s.%s' % (str(a[0]).split('.')[-1], a[1]))
        elif op == 'sym':
            put(str(a[0]))
        elif op == 'idx':
            put('#' + str(a[0]))
        elif op == 'attr' and len(a) >= 2:
            go(a[0])
            put('.' + str(a[1]))
            if len(a) > 2 and not (isinstance(a[2], T) and a[2].op == 'init'):
                put('@')
        elif op == 'item':
            go(a[0])
            put('[')
            go(a[1])
            put(']')
        elif op == 'tuple':
            put('(')
            many(a)
            put(')')
        elif op in ('list', 'set', 'dict'):
            put({'list': '[', 'set': 'set[', 'dict': 'dict['}[op])
            go(a[0])
            put(']')
        elif op == 'rows':
            many(a, '; ')
        elif op in ('row', 'spr'):
            if op == 'spr':
                put('*')
            go(a[1])
            if not (a[0].op == 'const'):
                put(' if {')
                go(a[0])
                put('}')
        elif op == 'for':
            put('for #%s in ' % (a[1],))
            go(a[0])
            put(': <')
            go(a[2])
            put('>')
        elif op == 'V':
            go(a[0])
            put('?{')
            by = []
            for l, c in a[1]:
                for e in by:
                    if e[1] is c:
                        e[0].append(l)
                        break
                else:
                    by.append([[l], c])
            for ls, c in by:
                many(ls, '|')
                put(': ')
                go(c)
                put(', ')
            put('else: ')
            go(a[2])
            put('}')
        elif op == 'N':
            go(a[0])
            put('?{')
            go(a[2][0])
            for (n, s), c in zip(a[1], a[2][1:]):
                put(' | %s%s: ' % ('>' if s else '>=', n))
                go(c)
            put('}')
        elif op == 'B':
            put('(')
            go(a[0])
            put(' ? ')
            go(a[1])
            put(' : ')
            go(a[2])
            put(')')
        elif op == 'strm':
            put('strm.')
            many(a)
        else:
            put(op + '(')
            many(a)
            put(')')

    try:
        go(t)
    except Stop:
        out.append(' ...')
    return ''.join(out)
