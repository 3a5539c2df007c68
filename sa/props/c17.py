"""Slipstream at the wing's control points.  For arbitrary points the velocity
field handed to the wing model - density, free stream and the axial and swirl
velocities of every propeller inside its stream tube - is compared with the
reference statement (spec/prop.py), for one propeller of each kind and for two
propellers, and the wing's loads in that field are compared for a complete
airplane."""
from .common import *
from . import propcmp as P

RULE = 'density and velocity at a point are the free stream plus the slipstream of every propeller whose tube holds the point'
RULE2 = "the wing model works in the density and velocity of the propellers' flow field"
ALL = ('FL', 'FD', 'FS', 'FX', 'FY', 'FZ', 'MX', 'MY', 'MZ')


def check(ck):
    for name, kw in (P.KINDS if ck.thorough() else [P.KINDS[0], P.KINDS[-1]]):
        ck.part(name, field, ck, [skel.prop('p1', **kw)], 'J')
    ck.part('given rotation rate', field, ck, [skel.prop('p1')], 'rot_per_sec')
    ck.part('no setting', field, ck, [skel.prop('p1')], None)
    ck.part('two propellers', field, ck, [skel.prop('p1'), skel.prop('p2', rot='CW', motor=False)], 'J')
    ck.part('whole airplane', plane, ck)


def vfield(w, doc, aero, ps, pts):
    I = w.I
    V, rho = I.get_item(aero, string('V_mag')), I.get_item(aero, string('rho'))
    out = None
    for k in range(len(doc['propellers'])):
        g, q, _, _ = P.loads(w, doc, aero, ps, k + 1)
        s = w.call(w.specfn('prop', 'slipstream'), g, q, V, pts).val
        out = s if out is None else I.ewise_phi(ir.add, out, s)
    return w.call(w.specfn('prop', 'field'), rho, V, P.stream(w, aero), out).val


def field(ck, props, key):
    doc = skel.plane([], props)
    w = ck.world(doc)
    pts = P.points(w, 'p1')
    aero = w.aero()
    ps = w.pstate(key) if key else NONE
    s = P.solver(w, pts)
    v = w.do(s, 'solve', aero, ps).val[1]
    ref = vfield(w, doc, aero, ps, pts)
    ck.same('velocity field', w.freeze(v), w.freeze(ref), RULE)


def plane(ck):
    doc = skel.plane(skel.W1(), [skel.prop('p1')])
    w = ck.world(doc)
    mu = w.machup()
    aero, ctl, ps = w.aero(), w.ctl(), w.pstate('J')
    o = w.do(mu, 'solve', aero, ctl, ps)
    t = P.asdict(w, o.val)
    d = skel.build(w.I, doc)
    g = w.dict_items(w.call(w.specfn('wing', 'sections'), d).val)
    la = vfield(w, doc, aero, ps, g['cp'][1])
    q = w.dict_items(w.call(w.specfn('wing', 'wings_local'), d, aero, ctl, la).val[1])
    r = w.dict_items(q['total'][1])
    pt = P.asdict(w, P.asdict(w, w.do(P.solver(w), 'solve', aero, ps).val[0])['total'][1])
    for k in ALL:
        present(ck, t, k)
        ck.same('total ' + k, w.freeze(t[k][1]), w.freeze(w.I.ewise_phi(ir.add, r[k][1], pt[k][1])), RULE2)
