"""Canonical form and static facts of regular expressions (parse tree of the pattern, never matched)."""
import re
try:
    from re import _parser as sre_parse
    from re import _constants as sre_c
except ImportError:          # pragma: no cover
    import sre_parse
    import sre_constants as sre_c


def canonical(pattern, flags=0):
    """Canonical text of the parsed pattern: insensitive to escaping style and to the order inside [...]."""
    try:
        p = sre_parse.parse(pattern, flags)
    except re.error as e:
        return 'INVALID(%s)' % e
    return '%d:%s' % (p.state.flags & ~32, dump(p))


def dump(p):
    out = []
    for op, av in p:
        out.append(dump1(op, av))
    return '[' + ' '.join(out) + ']'


def charset(items):
    """Canonical content of a character class: set of code points and categories."""
    neg = False
    pts, cats = set(), set()
    for op, av in items:
        n = str(op)
        if n == 'NEGATE':
            neg = True
        elif n == 'LITERAL':
            pts.add((av, av))
        elif n == 'RANGE':
            pts.add(tuple(av))
        else:
            cats.add(str(av))
    # merge ranges
    merged = []
    for lo, hi in sorted(pts):
        if merged and lo <= merged[-1][1] + 1:
            merged[-1] = (merged[-1][0], max(hi, merged[-1][1]))
        else:
            merged.append((lo, hi))
    return neg, tuple(merged), tuple(sorted(cats))


def dump1(op, av):
    n = str(op)
    if n == 'LITERAL':
        return 'c%d' % av
    if n == 'NOT_LITERAL':
        return 'IN' + repr((True, ((av, av),), ()))
    if n == 'IN':
        cs = charset(av)
        if not cs[0] and not cs[2] and len(cs[1]) == 1 and cs[1][0][0] == cs[1][0][1]:
            return 'c%d' % cs[1][0][0]
        return 'IN' + repr(cs)
    if n == 'BRANCH':
        return 'BR(' + '|'.join(dump(b) for b in av[1]) + ')'
    if n == 'SUBPATTERN':
        g, add, sub, p = av
        if g is None and not add and not sub:
            return 'NC' + dump(p)
        return 'G%s,%d,%d%s' % (g, add, sub, dump(p))
    if n in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
        lo, hi, p = av
        return '%s{%s,%s}%s' % (n, lo, hi, dump(p))
    if n in ('ASSERT', 'ASSERT_NOT'):
        return '%s%d%s' % (n, av[0], dump(av[1]))
    if n == 'GROUPREF':
        return 'REF%d' % av
    return '%s:%s' % (n, av)


def canonical_repl(repl):
    r"""\1 and \g<1> denote the same group."""
    return re.sub(r'\\(\d)(?!\d)', r'\\g<\1>', repl)
