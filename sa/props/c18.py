"""Direction of rotation.  Two airplanes that differ only in the rotation
direction of a propeller are analysed on the same unknowns; the parity of every
reported quantity under the change is decided by comparing the value graphs:
blade sections, thrust, force and induced velocities even; torque and swirl odd;
the moment is the offset moment of the force (even) plus an odd part whose
component along the axis is the torque."""
from .common import *
from . import propcmp as P
from ..heap import SliceV

RULE = 'reversing the rotation changes only the signs of shaft torque, off-axis yawing moment and swirl'
COLS = ('radial_position', 'chord', 'pitch', 'advance_angle', 'induced_angle', 'alpha', 'section_CL', 'section_CD', 'Vi', 'Vi_x', 'Vi_t')


def check(ck):
    for name, kw in P.KINDS[:-1]:
        ck.part(name, pair, ck, kw, 'J')
    ck.part('given rotation rate', pair, ck, {}, 'rot_per_sec')
    ck.part('no setting', pair, ck, {}, None)
    ck.part('given power', pair, ck, {}, 'brake_power')
    ck.part('one of two propellers', second, ck)
    ck.part('construction interface', api, ck)
    if ck.thorough():
        ck.part('given throttle', pair, ck, {}, 'electric_throttle')
        for name, kw in P.KINDS[1:-1]:
            ck.part(name + ', given rotation rate', pair, ck, kw, 'rot_per_sec')


def run(ck, doc, key, cols=True, ap=None):
    w = ck.world(doc)
    aero = w.aero()
    ps = w.pstate(key) if key else NONE
    pts = P.points(w)
    if ap is None:
        s = P.solver(w, pts)
    else:
        s = w.call(w.attr('machup', 'PropsSolver'), ap(w), pts).val
    o = w.do(s, 'solve', aero, ps)
    t = P.asdict(w, P.asdict(w, o.val[0])['total'][1])
    v = [w.I.arr(w.I.get_item(o.val[1], (SliceV(NONE, NONE, NONE), num(k))))[1] for k in range(4)]
    t = {k: w.freeze(t[k][1]) for k in t}
    d = {}
    if cols and ap is None:
        mu = w.machup()
        o = w.do(mu, 'distributions', aero, w.ctl(), ps)
        dd = P.asdict(w, w.I.get_item(o.val, num(1)))
        d = {k: w.freeze(dd[k][1]) for k in dd}
    return w, t, v, d, aero


def pair(ck, kw, key):
    A = run(ck, skel.plane([], [skel.prop('p1', rot='CCW', **kw)]), key)
    B = run(ck, skel.plane([], [skel.prop('p1', rot='CW', **kw)]), key)
    compare(ck, A, B)


def compare(ck, A, B):
    w, ta, va, da, aero = A
    _, tb, vb, db, _ = B
    for c in COLS:
        if da:
            ck.same('column ' + c, da[c], db[c], RULE)
    for k in ('FX', 'FY', 'FZ', 'FL', 'FD', 'FS', 'Thrust'):
        ck.same(k, ta[k], tb[k], RULE)
    ck.same('Torque', ta['Torque'], ir.neg(tb['Torque']), RULE)
    doc = skel.plane([], [skel.prop('p1')])
    g = w.dict_items(w.call(w.specfn('prop', 'geometry'), P.prop_dict(w, doc)).val)
    ax = vec(w, g['axis'][1])
    arm = [ir.sub(a, b) for a, b in zip(vec(w, g['pos'][1]), vec(w, P.cg(w, doc)))]
    F = [ta['F' + x] for x in 'XYZ']
    off = cross(arm, F)
    M, N = [ta['M' + x] for x in 'XYZ'], [tb['M' + x] for x in 'XYZ']
    for i in range(3):
        ck.same('even part of M' + 'XYZ'[i], ir.mul(num('0.5'), ir.add(M[i], N[i])), off[i], RULE)
    odd = [ir.mul(num('0.5'), ir.sub(a, b)) for a, b in zip(M, N)]
    ck.same('odd moment along the axis', dot(odd, ax), ta['Torque'], RULE)
    # slipstream
    u = vec(w, P.stream(w, aero))
    V = atom('aero.V_mag')
    at = lambda v, k: v[k]
    ea = [ir.sub(at(va, k + 1), ir.mul(V, u[k])) for k in range(3)]
    eb = [ir.sub(at(vb, k + 1), ir.mul(V, u[k])) for k in range(3)]
    n = atom('int:npts')

    def field(name, f, h):
        wr = lambda x: w.freeze(w.I.new_arr((n,), x))
        ck.same(name, wr(f), wr(h), RULE)
    field('density', at(va, 0), at(vb, 0))
    field('axial slipstream', dot(ea, ax), dot(eb, ax))
    c = cross([ir.add(a, b) for a, b in zip(ea, eb)], ax)
    for k in range(3):
        field('swirl reverses (%s)' % 'xyz'[k], cross(ea, ax)[k], ir.neg(cross(eb, ax)[k]))


def vec(w, v):
    return [w.I.get_item(v, num(k)) for k in range(3)]


def dot(a, b):
    return ir.add(ir.add(ir.mul(a[0], b[0]), ir.mul(a[1], b[1])), ir.mul(a[2], b[2]))


def cross(a, b):
    m = lambda i, j: ir.sub(ir.mul(a[i], b[j]), ir.mul(a[j], b[i]))
    return [m(1, 2), m(2, 0), m(0, 1)]


def second(ck):
    """reversing the second propeller leaves the first one's part alone"""
    mk = lambda r: skel.plane([], [skel.prop('p1', rot='CW'), skel.prop('p2', rot=r, motor=False)])
    w, ta, va, _, aero = run(ck, mk('CCW'), 'J', False)
    _, tb, vb, _, _ = run(ck, mk('CW'), 'J', False)
    _, tc, vc, _, _ = run(ck, skel.plane([], [skel.prop('p1', rot='CW')]), 'J', False)
    for k in ('FX', 'FY', 'FZ', 'FL', 'FD', 'FS', 'Thrust'):
        ck.same(k, ta[k], tb[k], RULE)
    ck.same('Torque', ir.add(ta['Torque'], tb['Torque']), ir.mul(num(2), tc['Torque']), RULE)


def api(ck):
    """the same two propellers through the construction interface"""
    from .c15 import api_prop, full_dims, FO
    def mk(r):
        def go(w):
            I = w.I
            pitch = I.new_dict({'type': (TRUE, string('value')), 'value': (TRUE, atom('p1.pitch'))})
            chord = I.new_dict({'type': (TRUE, string('linear')), 'root': (TRUE, atom('p1.croot')), 'tip': (TRUE, atom('p1.ctip'))})
            return api_prop(w, full_dims(w, pitch_info=pitch, chord_info=chord, rot_dir=num(r)), [('a', {k: atom('p1.af0.' + k) for k in FO})])
        return go
    A = run(ck, None, 'J', False, mk(1))
    B = run(ck, None, 'J', False, mk(-1))
    zero = {k: num(0) for k in ('CGx', 'CGy', 'CGz')}
    w, ta, va, _, aero = A
    _, tb, vb, _, _ = B
    for k in ('FX', 'FY', 'FZ', 'Thrust'):
        ck.same(k, ta[k], tb[k], RULE)
    ck.same('Torque', ta['Torque'], ir.neg(tb['Torque']), RULE)
    _, tc, vc, _, _ = run(ck, skel.plane([], [skel.prop('p1', rot='CCW')]), 'J', False)
    ck.same('Torque as from the file', ta['Torque'], tc['Torque'], 'rotation direction 1 is CCW')
