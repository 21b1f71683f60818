"""Runs a driver: abstract interpretation of a client program together with the package found under a root."""
import sys

from . import cuts, drivers
from .interp import Interp
from .loader import Loader, AnalysisError
from .terms import sym

sys.setrecursionlimit(60000)


class Result(object):
    pass


def run_driver(name, root, src=None):
    d = name if isinstance(name, dict) else drivers.D[name]
    name = d['name']
    loader = Loader([root])
    loader.add_source('sa_spec', cuts.SPEC, '<contracts>')
    loader.add_source('drv', src or d['src'], '<driver %s>' % name)
    it = Interp(loader, cuts.build(d['cuts']), opts=d['opts'].get('interp'))
    st = it.state
    cuts.spec_frame(it, st)
    fr = it.load_module('drv', st)
    f = st.vars.get((fr, 'entry'))
    if f is None:
        raise AnalysisError('driver %s has no entry' % name)
    args = []
    for p in d['params']:
        n, _, cls = p.partition(':')
        args.append(sym(n, cls or None))
    v = it.call(f, args, {}, st, None)
    r = Result()
    r.interp, r.state, r.name = it, st, name
    r.value = it.freeze(v, st)
    r.events = it.events
    r.notes = it.notes
    return r
