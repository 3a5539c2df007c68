"""One flight state for wings and propellers.  For a full state, for a state with
any subset of the optional entries (unknown presence bits) and for no state at
all, the loads of a wing-only, a propeller-only and a complete airplane and the
flow field handed from the propellers to the wings are compared with those
computed in one and the same free stream (spec/wing.py, spec/prop.py)."""
from .common import *
from . import propcmp as P
from . import c17, c16

RULE = 'wings, propellers and the wind-axis resolution use the flight direction, speed and density of the given state'
ALL = ('FL', 'FD', 'FS', 'FX', 'FY', 'FZ', 'MX', 'MY', 'MZ')
SHAPES = ('every entry', 'optional entries', 'no state')


def check(ck):
    for sh in SHAPES:
        ck.part('propellers, ' + sh, props, ck, sh)
        ck.part('wings, ' + sh, wings, ck, sh)
        ck.part('whole airplane, ' + sh, whole, ck, sh)


def state(w, shape):
    """the state given to the code and the equivalent complete state"""
    if shape == 'no state':
        d = w.state('aero', AERO, vals=dict({k: num(0) for k in AERO}, V_mag=num(10), rho=num('0.0023769')))
        return NONE, d
    a = w.aero(shape == 'optional entries')
    return a, a


def props(ck, shape):
    doc = skel.plane([], [skel.prop('p1')])
    w = ck.world(doc)
    given, full = state(w, shape)
    ps = w.pstate('J')
    pts = P.points(w)
    o = w.do(P.solver(w, pts), 'solve', given, ps)
    t = P.asdict(w, P.asdict(w, o.val[0])['total'][1])
    q = P.loads(w, doc, full, ps)[3]
    c16.totals(ck, w, t, [q], full)
    ck.same('flow field', w.freeze(o.val[1]), w.freeze(c17.vfield(w, doc, full, ps, pts)), RULE)


def wings(ck, shape):
    doc = skel.plane(skel.W1(), [])
    w = ck.world(doc)
    given, full = state(w, shape)
    ctl = w.ctl()
    t = P.asdict(w, w.do(w.machup(), 'solve', given, ctl).val)
    q = w.dict_items(w.call(w.specfn('wing', 'wings_alone'), skel.build(w.I, doc), full, ctl).val[1])
    r = w.dict_items(q['total'][1])
    for k in ALL:
        present(ck, t, k)
        ck.same('total ' + k, w.freeze(t[k][1]), w.freeze(r[k][1]), RULE)


def whole(ck, shape):
    doc = skel.plane(skel.W1(), [skel.prop('p1')])
    w = ck.world(doc)
    given, full = state(w, shape)
    ctl, ps = w.ctl(), w.pstate('J')
    t = P.asdict(w, w.do(w.machup(), 'solve', given, ctl, ps).val)
    d = skel.build(w.I, doc)
    g = w.dict_items(w.call(w.specfn('wing', 'sections'), d).val)
    la = c17.vfield(w, doc, full, ps, g['cp'][1])
    q = w.dict_items(w.call(w.specfn('wing', 'wings_local'), d, full, ctl, la).val[1])
    r = w.dict_items(q['total'][1])
    pt = w.dict_items(w.call(w.specfn('prop', 'totals'), P.loads(w, doc, full, ps)[1], P.stream(w, full)).val)
    for k in ALL:
        present(ck, t, k)
        ck.same('total ' + k, w.freeze(t[k][1]), w.freeze(w.I.ewise_phi(ir.add, r[k][1], pt[k][1])), RULE)
