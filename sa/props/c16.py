"""Propeller operating point and loads.  For every kind of propeller and every
way of giving its operating state, the blade-section state (advance, induced
and effective angle, lift, drag, induced velocities) and the force, moment,
thrust and torque totals are compared with the reference statement of
blade-element / vortex theory (spec/prop.py).  The iterations (induced angle,
rotation rate from power or from the motor's torque) are summarised as loops;
their starting values, bodies and exits are part of the compared graphs."""
from .common import *
from . import propcmp as P
from ..ir import div

RULE = 'blade sections follow vortex theory at the given operating point'
RULE2 = "the propeller's load is the blade-element integral made dimensional with its rotation rate, density and diameter"
COLS = (('advance_angle', 'einf', 1), ('induced_angle', 'ei', 1), ('alpha', 'alpha', 1), ('section_CL', 'CL', 0), ('section_CD', 'CD', 0),
        ('Vi', 'Vi', 0), ('Vi_x', 'Vx', 0), ('Vi_t', 'Vt', 0))
DIMLESS = ('advance_angle', 'induced_angle', 'alpha', 'section_CL', 'section_CD')


def check(ck):
    for name, kw in P.KINDS:
        ck.part(name, one, ck, kw, 'J')
    for key in ('rot_per_sec', 'brake_power', 'electric_throttle'):
        ck.part('setting ' + key, one, ck, {}, key)
    ck.part('motor in SI units', one, ck, {}, 'electric_throttle', 'SI')
    ck.part('no setting', one, ck, {}, None)
    ck.part('zero advance ratio', zero, ck)
    ck.part('two propellers', several, ck)
    ck.part('two propellers, own settings', several, ck, True)
    if ck.thorough():
        for name, kw in P.KINDS:
            for key in ('rot_per_sec', 'brake_power', 'electric_throttle', None):
                ck.part('%s, setting %s' % (name, key), one, ck, kw, key)


def run(ck, w, doc, aero, ps, units, cols=True, under=None):
    mu = w.machup()
    d = None
    if cols:
        o = w.do(mu, 'distributions', aero, w.ctl(), ps)
        d = P.asdict(w, w.I.get_item(o.val, num(1)))
    t = P.asdict(w, w.do(P.solver(w), 'solve', aero, ps).val[0])
    t = P.asdict(w, t['total'][1])
    n = len(doc['propellers'])
    return mu, d, t, [P.loads(w, doc, aero, sub(w, ps, 'prop%d' % (k + 1)), k + 1, units) for k in range(n)]


def sub(w, ps, name):
    it = w.dict_items(ps)
    return it[name][1] if it is not None and name in it else ps


def one(ck, kw, key, units='English'):
    doc = skel.plane([], [skel.prop('p1', **kw)], units=units)
    w = ck.world(doc)
    ps = w.pstate(key) if key else NONE
    mu, d, t, (q,) = run(ck, w, doc, w.aero(), ps, units)
    columns(ck, w, d, q[3])
    totals(ck, w, t, [q[3]], w.aero())


def columns(ck, w, d, q):
    for col, ref, deg in COLS:
        present(ck, d, col)
        b = q[ref][1]
        if deg:
            b = P.degrees(w, b)
        ck.same(col, w.freeze(d[col][1]), w.freeze(b), RULE)


def totals(ck, w, t, qs, aero):
    I = w.I
    F, M, T, l = [fold(I, [q[k][1] for q in qs]) for k in ('F', 'M', 'T', 'l')]
    for nm, v in (('F', F), ('M', M)):
        for i, ax in enumerate('XYZ'):
            present(ck, t, nm + ax)
            ck.same('total ' + nm + ax, w.freeze(t[nm + ax][1]), w.freeze(I.get_item(v, num(i))), RULE2)
    present(ck, t, 'Thrust')
    present(ck, t, 'Torque')
    ck.same('thrust', w.freeze(t['Thrust'][1]), w.freeze(T), RULE2)
    ck.same('torque', w.freeze(t['Torque'][1]), w.freeze(l), RULE2)
    r = w.call(w.specfn('wing', 'wind_axes'), F, P.stream(w, aero)).val
    for i, k in enumerate(('FL', 'FD', 'FS')):
        present(ck, t, k)
        ck.same('total ' + k, w.freeze(t[k][1]), w.freeze(I.get_item(r, num(i))), 'lift, drag and side force are the wind-axis resolution of the force')


def fold(I, vs):
    a = vs[0]
    for b in vs[1:]:
        a = I.ewise_phi(ir.add, a, b)
    return a


def zero(ck):
    """J = 0 with a rotation rate"""
    doc = skel.plane([], [skel.prop('p1')])
    w = ck.world(doc)
    ps = w.state('ps', ('J', 'rot_per_sec'), vals={'J': num(0)})
    mu, d, t, (q,) = run(ck, w, doc, w.aero(), ps, 'English')
    columns(ck, w, d, q[3])
    totals(ck, w, t, [q[3]], w.aero())


def several(ck, own=False):
    doc = skel.plane([], [skel.prop('p1'), skel.prop('p2', rot='CW', motor=False)])
    w = ck.world(doc)
    aero = w.aero()
    if own:
        ps = w.I.new_dict({'prop1': (TRUE, w.pstate('J', 'ps1')), 'prop2': (TRUE, w.pstate('rot_per_sec', 'ps2'))})
    else:
        ps = w.pstate('J')
    mu, d, t, qs = run(ck, w, doc, aero, ps, 'English', cols=False)
    totals(ck, w, t, [q[3] for q in qs], aero)
    o = w.do(mu, 'distributions', aero, w.ctl(), ps)
    d = P.asdict(w, w.I.get_item(o.val, num(1)))
    joined(ck, w, d, qs)


def joined(ck, w, d, qs):
    """columns list the propellers one after the other"""
    I = w.I
    for col, ref, deg in COLS:
        bs = []
        for q in qs:
            b = q[3][ref][1]
            bs.append(P.degrees(w, b) if deg else b)
        j = w.call(w.specfn('wing', 'join'), I.new_list(bs)).val
        ck.same(col, w.freeze(d[col][1]), w.freeze(j), RULE)
