"""Decides one driver: compares the summary of the analysed tree with the specified one.

Run in a process of its own (time and memory limits): python3 -m sa.check <root> <driver> <comps> -> JSON on stdout."""
import json
import os
import resource
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = os.path.join(HERE, 'ref')
LOCAL = 8         # tokens: see edits.py
BAG = ('effects', 'raises', 'files', 'threads', 'calls')


def select(comp, sel):
    """Does the component match one of the selectors (name or prefix*)?"""
    for s in sel:
        if s == '*' or s == comp or s.endswith('*') and comp.startswith(s[:-1]):
            return True
    return False


def decide(root, name, sel, modes):
    from .compare import compare
    from .edits import extent
    from .loader import AnalysisError
    from .summary import Summary
    from .terms import subterms
    out = {'driver': name, 'components': [], 'status': 'ok', 'notes': []}
    ref = Summary(name, REF)
    try:
        got = Summary(name, root)
    except AnalysisError as e:
        # a private helper may be renamed; a public name that is gone leaves nothing to decide about
        gone = str(e).split(' ')[1] if str(e).startswith('name ') else ''
        out['status'] = 'undecided' if gone.startswith('_') else 'missing'
        out['notes'].append(str(e))
        return out
    st = got.r.interp.stats
    out['stats'] = {k: v for k, v in st.items() if isinstance(v, int)}
    out['functions'] = sorted(f for f in st['functions'] if f.startswith('scrappybara.'))
    out['notes'] = [str(n) for n in got.r.notes][:20]
    size, changed, moved = extent(REF, root)
    local = moved == 0 and len(changed) <= 2 and size <= LOCAL
    out['edit'] = {'tokens': size, 'functions': changed[:8], 'added_or_removed': moved}
    names = list(dict.fromkeys(ref.names + got.names))
    for comp in names:
        if not select(comp, sel):
            continue
        attrs = None
        mode = modes.get(comp, modes.get('*', 'bag' if comp in BAG else 'seq'))
        if ':' in mode:
            mode, _, a = mode.partition(':')
            attrs = tuple(a.split('+'))
        a = ref.get(comp, mode, attrs)
        b = got.get(comp, mode, attrs)
        eq, divs = compare(a, b, mode, local)
        rec = {'component': comp, 'size': len(subterms(b)), 'mode': mode, 'equal': bool(eq)}
        if not eq:
            rec['sure'] = [d.text() for d in divs if d.sure][:8]
            rec['unsure'] = ['%s (%s)' % (d.text(200), d.why) for d in divs if not d.sure][:8]
            rec['status'] = 'violation' if rec['sure'] else 'undecided'
        else:
            rec['status'] = 'proved'
        out['components'].append(rec)
    return out


def main():
    root, name, sel, modes = sys.argv[1], sys.argv[2], json.loads(sys.argv[3]), json.loads(sys.argv[4])
    res = {}
    t = time.time()

    def work():
        try:
            if name.startswith('rule:'):
                from . import rules
                res.update(rules.run(name[5:], root))
            else:
                res.update(decide(root, name, sel, modes))
        except Exception as e:
            res.update({'driver': name, 'components': [], 'status': 'undecided',
                        'notes': ['%s: %s' % (type(e).__name__, str(e)[:300]), traceback.format_exc()[-1500:]]})

    threading.stack_size(512 * 1024 * 1024)
    th = threading.Thread(target=work)
    th.start()
    th.join()
    res['wall_s'] = round(time.time() - t, 2)
    json.dump(res, sys.stdout)


if __name__ == '__main__':
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    main()
