"""Load totals.  The totals reported by MachUp.solve are compared, component by
component, with the sum of what the wing model and the propeller model report on
their own for the same flow; the wing model's total with its inviscid and viscous
parts; the propellers' totals with those of airplanes carrying one propeller
each; and the wind-axis components with the resolution of the body-axis force
along the flight direction."""
from .common import *
from . import propcmp as P
from .wingcmp import model

RULE = 'total load is the sum of the wing and propeller loads, component by component'
RULE2 = 'lift, drag and side force resolve the body-axis force along the flight direction'
ALL = ('FL', 'FD', 'FS', 'FX', 'FY', 'FZ', 'MX', 'MY', 'MZ')


def check(ck):
    two = lambda: [skel.prop('p1'), skel.prop('p2', rot='CW', motor=False)]
    ck.part('wing and two propellers', both, ck, skel.plane(skel.W1(), two()))
    ck.part('wings only', wings, ck, skel.plane(skel.W3(), []))
    ck.part('one-sided wing', wings, ck, skel.plane(skel.Wleft(), []))
    ck.part('propellers only', props, ck, two)
    if ck.thorough():
        ck.part('three wings and a propeller', both, ck, skel.plane(skel.W3(), [skel.prop('p1')]))
        ck.part('wing and fin, propeller', both, ck, skel.plane(skel.Wleft(), [skel.prop('p1', foils=2)]))


def add(w, *v):
    r = v[0]
    for x in v[1:]:
        r = w.I.ewise_phi(ir.add, r, x)
    return r


def resolved(ck, w, t, aero):
    I = w.I
    F = I.new_list([t['F' + x][1] for x in 'XYZ'])
    r = w.call(w.specfn('wing', 'wind_axes'), w.call(w.specfn('wing', 'vector'), F).val, P.stream(w, aero)).val
    for i, k in enumerate(('FL', 'FD', 'FS')):
        present(ck, t, k)
        ck.same('wind axes ' + k, w.freeze(t[k][1]), w.freeze(I.get_item(r, num(i))), RULE2)


def wingparts(ck, w, r):
    tot, inv, vis = (P.asdict(w, r[k][1]) for k in ('total', 'inviscid', 'viscous'))
    for k in ALL:
        for d in (tot, inv, vis):
            present(ck, d, k)
        ck.same('wing total %s is inviscid plus viscous' % k, w.freeze(tot[k][1]), w.freeze(add(w, inv[k][1], vis[k][1])), RULE)
    return tot


def both(ck, doc):
    w = ck.world(doc)
    aero, ctl, ps = w.aero(), w.ctl(), w.pstate('J')
    mu = w.machup()
    t = P.asdict(w, w.do(mu, 'solve', aero, ctl, ps).val)
    g = w.dict_items(w.call(w.specfn('wing', 'sections'), skel.build(w.I, doc)).val)
    o = w.do(P.solver(w, g['cp'][1]), 'solve', aero, ps)
    pt = P.asdict(w, P.asdict(w, o.val[0])['total'][1])
    st = w.aero()
    w.I.set_item(st, string('local_state'), o.val[1])
    r = P.asdict(w, w.do(model(w), 'solve', string('linear'), st, ctl).val)
    wt = P.asdict(w, r['total'][1])
    for k in ALL:
        present(ck, t, k)
        present(ck, wt, k)
        present(ck, pt, k)
        ck.same('total ' + k, w.freeze(t[k][1]), w.freeze(add(w, wt[k][1], pt[k][1])), RULE)
    resolved(ck, w, wt, aero)
    resolved(ck, w, pt, aero)
    wingparts(ck, w, r)


def wings(ck, doc):
    w = ck.world(doc)
    aero, ctl = w.aero(), w.ctl()
    t = P.asdict(w, w.do(w.machup(), 'solve', aero, ctl).val)
    r = P.asdict(w, w.do(model(w), 'solve', string('linear'), aero, ctl).val)
    wt = wingparts(ck, w, r)
    for k in ALL:
        present(ck, t, k)
        ck.same('total ' + k, w.freeze(t[k][1]), w.freeze(wt[k][1]), RULE)
    resolved(ck, w, wt, aero)


def props(ck, mk):
    res = []
    keys = ALL + ('Thrust', 'Torque')
    ps1 = mk()
    for lst in (ps1, ps1[:1], ps1[1:]):
        w = ck.world(skel.plane([], lst))
        aero, ctl, ps = w.aero(), w.ctl(), w.pstate('J')
        t = P.asdict(w, w.do(w.machup(), 'solve', aero, ctl, ps).val)
        pt = P.asdict(w, P.asdict(w, w.do(P.solver(w), 'solve', aero, ps).val[0])['total'][1])
        for k in ALL:
            present(ck, t, k)
            ck.same('total ' + k, w.freeze(t[k][1]), w.freeze(pt[k][1]), RULE)
        for k in keys:
            present(ck, pt, k)
        res.append({k: w.freeze(pt[k][1]) for k in keys})
        resolved(ck, w, pt, aero)
    for k in keys:
        ck.same('two propellers ' + k, res[0][k], ir.add(res[1][k], res[2][k]), RULE)
