"""two calls in a row: shared by C02 and C03"""
from .common import *
from .. import skel
from ..heap import Phi
from ..interp import Dead


def other(doc, pfx='z'):
    """a description with the same shape and names but other numbers"""
    def go(d):
        if isinstance(d, dict):
            return {k: go(v) for k, v in d.items()}
        if isinstance(d, list):
            return [go(v) for v in d]
        if isinstance(d, tuple):
            n = d[1]
            if n.startswith('int:'):
                return ('atom', 'int:%s.%s' % (pfx, n[4:]))
            return ('atom', '%s.%s' % ('p' + pfx if n[0] == 'p' else pfx, n))
        return d
    return go(doc)


def at(w, st, fn):
    """run fn from program point st; its value and the point it reaches"""
    I = w.I
    s = I.st
    I.st = st.fork()
    try:
        return fn(), I.st
    finally:
        I.st = s


def moved(a, b):
    """objects that existed at point a and have another value at point b"""
    return [k for k in a.heap.diff(b.heap) if a.heap.get(k) is not None]


def args(w, tag, mode='maybe', key='J'):
    """state arguments made of the unknowns of this call"""
    p = NONE
    if key == 'nested':
        p = w.I.new_dict({k: (TRUE, w.state('%s.ps.%s' % (tag, k), ('J',))) for k in ('prop1', 'prop2')})
    elif key:
        p = w.pstate(key, tag + '.ps')
    if mode == 'none':
        return dict(aero_state=NONE, control_state=NONE, prop_state=p)
    return dict(aero_state=w.aero(mode == 'maybe', tag + '.aero'), control_state=w.ctl(mode == 'maybe', tag + '.ctl'), prop_state=p)
