"""Mirror symmetry.  A symmetric airplane is analysed in a state and in the
mirrored one (sideslip, roll and yaw rate, aileron and rudder reversed).  The
sections are paired by the mirror; the linear systems of the two runs are shown
to be the same up to that pairing, the solution of the first is then an unknown
function of the section, that of the second the same function of the paired
section, and the section columns and loads are compared under the mirror.  Sums
over the sections are interpreted as arbitrary functionals that do not change
when the two halves of a wing are exchanged.  Propeller pairs: loads and
slipstream."""
from .common import *
from . import propcmp as P
from ..arrays import close_arr
from ..ir import iv

RULE = 'the mirrored state of a symmetric airplane gives the mirrored result'
ODD = ('FS', 'FY', 'MX', 'MZ')
EVEN = ('FL', 'FD', 'FX', 'FZ', 'MY')
FLIP = ('beta', 'roll_rate', 'yaw_rate')
CFLIP = ('aileron', 'rudder')
# section columns: components, parity of a section that lies on the plane
COLS = (('control_points', 3, 1), ('forces_xyz', 3, 1), ('chord', 1, 1), ('twist', 1, 1), ('area', 1, 1), ('dihedral', 1, 1), ('sweep', 1, 1),
        ('alpha', 1, -1), ('section_CL', 1, -1), ('section_Cm', 1, -1), ('section_CD_parasitic', 1, 1), ('section_alpha_L0', 1, -1))
MIRROR = (num(1), num(-1), num(1))


def check(ck):
    ck.part('wing', wings, ck, [both('wing', 1)])
    ck.part('three wings', wings, ck, [both('wing', 1), both('outer', 2, parent=1, foils=1), both('tail', 3, foils=1, is_main=0)])
    ck.part('wing, tail and fin', wings, ck, [both('wing', 1), both('tail', 2, foils=1, is_main=0), fin('fin', 3)], 'fin')
    ck.part('propeller pair', props, ck, {}, 'J')
    ck.part('propeller pair, no setting', props, ck, {}, None)
    if ck.thorough():
        for name, kw in P.KINDS[1:-1]:
            for key in ('J', 'rot_per_sec', 'brake_power', 'electric_throttle'):
                ck.part('propeller pair, %s, %s' % (name, key), props, ck, kw, key)


def both(name, ID, **kw):
    d = skel.wing(name, ID, 'both', **kw)
    d['connect']['dy'] = 0
    return d


def fin(name, ID):
    """a vertical surface in the plane of symmetry"""
    d = skel.wing(name, ID, 'right', foils=1, is_main=0)
    d['connect'].update(dy=0, yoffset=0)
    d.update(dihedral=90, mounting_angle=0, washout=0)
    for f in d['airfoils'].values():
        f['properties'].update(alpha_L0=0, Cm_L0=0, CD0_L=0)
    d['control']['mix'].update(elevator=0, flap=0)
    return d


def states(w):
    """a state and its mirror image"""
    a, c = w.aero(), w.ctl()
    a2 = w.state('aero', AERO, vals={k: ir.neg(atom('aero.' + k)) for k in FLIP})
    c2 = w.state('ctl', ('aileron', 'elevator', 'rudder', 'flap'), vals={k: ir.neg(atom('ctl.' + k)) for k in CFLIP})
    return (a, c), (a2, c2)


# ------------------------------------------------------------------ pairing
class Pairing(object):
    """index of the mirrored section; segments of the airplane in order"""

    def __init__(self, order, reverse, alone=()):
        self.segs = []           # (offset, length, wing)
        self.alone = set(alone)
        o = num(0)
        for name in order:
            n = atom('int:%s.grid' % name)
            self.segs.append((o, n, name))
            o = ir.add(o, n)
        self.total = o
        self.reverse = reverse

    def index(self, i):
        out = i
        for k, (o, n, name) in enumerate(self.segs):
            if name in self.alone:
                continue
            (p, _, _), = [s for j, s in enumerate(self.segs) if s[2] == name and j != k]
            r = ir.sub(i, o)
            if self.reverse:
                r = ir.sub(ir.sub(n, num(1)), r)
            out = ir.ite(self.inside(i, o, n), ir.add(p, r), out)
        return out

    @staticmethod
    def inside(i, o, n):
        return ir.and_(ir.le(o, i), ir.lt(i, ir.add(o, n)))

    def sign(self, i, on=True):
        s = num(1)
        for o, n, name in self.segs:
            if name in self.alone and on:
                s = ir.ite(self.inside(i, o, n), num(-1), s)
        return s


def orders(names, alone):
    per = []
    for n in names:
        per += [n] if n in alone else [n, n]
    yield per
    yield [n for n in names if n not in alone] * 2 + list(alone)
    yield [n for n in names if n not in alone] + list(alone) + [n for n in names if n not in alone]


def column(p, v, comps, par):
    """mirror image of a section column"""
    i = iv(0)
    if comps == 3:
        return close_arr((p.total, num(3)), ir.mul(raw('get', v, p.index(i), iv(1)), ir.pick(iv(1), *MIRROR)))
    return close_arr((p.total,), ir.mul(raw('get', v, p.index(i)), p.sign(i, par < 0)))


def solves(*nodes):
    seen, out = set(), []
    for r in nodes:
        for n in ir.walk(r, seen):
            if n.op == 'f:solve':
                out.append(n)
    return out


def wings(ck, ws, *alone):
    doc = skel.plane(ws, [])
    doc['plane']['CGy'] = 0
    names = [d['name'] for d in ws]
    w = ck.world(doc)
    s1, s2 = states(w)
    mu = w.machup()
    col = [w.dict_items(w.I.get_item(w.do(mu, 'distributions', *s).val, num(0))) for s in (s1, s2)]
    for c, _, _ in COLS:
        present(ck, col[0], c)
    col = [{c: w.freeze(d[c][1]) for c, _, _ in COLS} for d in col]
    # the pairing that mirrors the control points
    for order in orders(names, alone):
        for rev in (True, False):
            p = Pairing(order, rev, alone)
            with functional(ck, p):
                if ck.verdict(column(p, col[0]['control_points'], 3, 1), col[0]['control_points'])[0] == 'same':
                    break
        else:
            continue
        break
    else:
        p = Pairing(next(orders(names, alone)), True, alone)
    with functional(ck, p):
        ck.part('distributions', dist, ck, w, p, col)
        ck.part('loads', totals, ck, w, p, [w.dict_items(w.do(mu, 'solve', *s).val) for s in (s1, s2)])
        m = w.call(w.attr('machup', 'LLModel'), w.call(w.attr('machup', 'Airplane'), inputfile=atom('infile', 'str')).val).val
        ck.part('wing model', model, ck, w, p, m, s1, s2)
        ck.part('prescribed local flow', local, ck, w, p, m)


def functional(ck, p):
    class Ctx(object):
        def __enter__(self):
            for g in (ck.G, ck.V, ck.V2):
                g.memo.clear()
                g.segments = (p.total, [(o, n) for o, n, _ in p.segs])

        def __exit__(self, *a):
            for g in (ck.G, ck.V, ck.V2):
                g.memo.clear()
                g.segments = None
    return Ctx()


def cancel(ck, p, A, B):
    """the solutions of the two linear systems are mirror images: show it and
    replace them by one unknown function of the section"""
    x, y = solves(*A), solves(*B)
    if not x and not y:
        return A, B
    if len(x) != 1 or len(y) != 1:
        ck.undec('linear system', '%d and %d systems' % (len(x), len(y)))
        raise Stop()
    x, y = x[0], y[0]
    i, j = iv(0), iv(1)
    n = p.total
    sg = ir.mul(p.sign(i), p.sign(j))
    a = close_arr((n, n), raw('get', x.args[0], i, j))
    b = close_arr((n, n), ir.mul(raw('get', y.args[0], p.index(i), p.index(j)), sg))
    ok = ck.same('matrix of the linear system', b, a, RULE)
    a = close_arr((n,), raw('get', x.args[1], i))
    b = close_arr((n,), ir.mul(raw('get', y.args[1], p.index(i)), p.sign(i)))
    ok &= ck.same('right-hand side of the linear system', b, a, RULE)
    if not ok:
        raise Stop()
    g = atom('circulation', 'arr')
    gx = close_arr((n,), raw('get', g, i))
    gy = close_arr((n,), ir.mul(raw('get', g, p.index(i)), p.sign(i)))
    mx, my = {}, {}
    return [ir.replace_nodes(v, {x: gx}, mx) for v in A], [ir.replace_nodes(v, {y: gy}, my) for v in B]


def dist(ck, w, p, col):
    ks = [c for c, _, _ in COLS]
    A, B = cancel(ck, p, [col[0][k] for k in ks], [col[1][k] for k in ks])
    for (c, k, par), a, b in zip(COLS, A, B):
        ck.same('section column ' + c, column(p, b, k, par), a, RULE)


def totals(ck, w, p, ts, pre=''):
    ks = EVEN + ODD
    for t in ts:
        for k in ks:
            present(ck, t, k)
    A, B = [[w.freeze(t[k][1]) for k in ks] for t in ts]
    A, B = cancel(ck, p, A, B)
    for k, a, b in zip(ks, A, B):
        ck.same(pre + k, ir.neg(b) if k in ODD else b, a, RULE)


def model(ck, w, p, m, s1, s2):
    parts = [w.dict_items(w.do(m, 'solve', string('linear'), *s).val) for s in (s1, s2)]
    for k in ('inviscid', 'viscous'):
        for q in parts:
            present(ck, q, k)
        totals(ck, w, p, [w.dict_items(q[k][1]) for q in parts], k + ' ')


def local(ck, w, p, m):
    """density and velocity given at the sections"""
    la = atom('local_state', 'arr')
    flip = ir.pick(iv(1), num(1), *MIRROR)
    l1 = w.I.new_arr((p.total, num(4)), raw('get', la, iv(0), iv(1)))
    l2 = w.I.new_arr((p.total, num(4)), ir.mul(raw('get', la, p.index(iv(0)), iv(1)), flip))
    (a, c), (a2, c2) = states(w)
    for s, l in ((a, l1), (a2, l2)):
        w.I.set_item(s, string('local_state'), l)
    model(ck, w, p, m, (a, c), (a2, c2))


# --------------------------------------------------------------- propellers
def props(ck, kw, key):
    left, right = skel.prop('p1', rot='CCW', **kw), skel.prop('p1', rot='CW', **kw)
    right['position']['dy'] = ir.neg(atom('p1.dy'))
    right['orientation']['heading_angle'] = ir.neg(atom('p1.head'))
    doc = skel.plane([], [left, right])
    doc['plane']['CGy'] = 0
    w = ck.world(doc)
    (a, _), (a2, _) = states(w)
    ps = w.pstate(key) if key else NONE
    n = atom('int:npts')
    x = raw('get', atom('pts', 'arr'), iv(0), iv(1))
    pts = w.I.new_arr((n, num(3)), x)
    pt2 = w.I.new_arr((n, num(3)), ir.mul(x, ir.pick(iv(1), *MIRROR)))
    r = []
    for s, q in ((a, pts), (a2, pt2)):
        o = w.do(P.solver(w, q), 'solve', s, ps)
        t = P.asdict(w, P.asdict(w, o.val[0])['total'][1])
        r.append(({k: w.freeze(t[k][1]) for k in t}, w.freeze(o.val[1])))
    (ta, va), (tb, vb) = r
    for k in EVEN + ODD + ('Thrust', 'Torque'):
        if k not in ta:
            ck.fail('result key ' + k, 'documented entry "%s" is part of the result' % k)
            continue
        b = tb[k]
        ck.same(k, ir.neg(b) if k in ODD + ('Torque',) else b, ta[k], RULE)
    for k in range(4):
        f = lambda v: close_arr((n,), raw('get', v, iv(0), num(k)))
        b = f(vb)
        if k == 2:
            b = close_arr((n,), ir.neg(raw('get', vb, iv(0), num(k))))
        ck.same('stream ' + ('density', 'x', 'y', 'z')[k], b, f(va), RULE)
