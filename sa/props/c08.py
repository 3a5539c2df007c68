"""Units.  The program is analysed twice: on a description and a state of
unknowns, and on the same description and state with every length, time and
mass multiplied by unknown positive factors.  The loads, velocities, areas and
distributions of the second must be those of the first times the power of the
factors that belongs to their dimension.  Analyses built on solve use its
summary, of which the same homogeneity is assumed (it is what the first part
decides).  The search for the rotation rate of a given power starts from a fixed
guess and stops at a fixed accuracy, so that only its equation, not its last
digits, is free of units: its loads are covered at a given rotation rate.  The declared unit system must not matter without an electric motor."""
from .common import *
from . import propcmp as P
from . import modular as M
from .wingcmp import model
from ..interp import Dead
from ..heap import SliceV

ASSUMPTIONS = ['airspeed, density and all sizes are positive', 'numpy.linalg.solve solves the system it is given']
RULE = 'consistent scaling of lengths, times and masses scales results by their dimension'
RULE2 = 'the declared unit system only matters for the electric motor'
UNIT = {'L': atom('unitL'), 'T': atom('unitT'), 'M': atom('unitM')}
# dimension: powers of length, time, mass
LEN, AREA, VEL, RATE, DENS, FORCE, MOMENT, POWER, ONE = (1, 0, 0), (2, 0, 0), (1, -1, 0), (0, -1, 0), (-3, 0, 1), (1, -2, 1), (2, -2, 1), (2, -3, 1), (0, 0, 0)
STATE = {'V_mag': VEL, 'rho': DENS, 'roll_rate': RATE, 'pitch_rate': RATE, 'yaw_rate': RATE, 'rot_per_sec': RATE, 'brake_power': POWER}
LENGTHS = {'dx', 'dy', 'dz', 'yoffset', 'span', 'root_chord', 'tip_chord', 'CGx', 'CGy', 'CGz', 'diameter', 'hub_diameter', 'longitudinal_length',
           'lateral_length'}
LOAD = {'FL': FORCE, 'FD': FORCE, 'FS': FORCE, 'FX': FORCE, 'FY': FORCE, 'FZ': FORCE, 'MX': MOMENT, 'MY': MOMENT, 'MZ': MOMENT}
WCOL = {'name': None, 'control_points': LEN, 'chord': LEN, 'twist': ONE, 'dihedral': ONE, 'sweep': ONE, 'area': AREA, 'alpha': ONE, 'forces_xyz': FORCE,
        'section_CL': ONE, 'section_Cm': ONE, 'section_CD_parasitic': ONE, 'section_alpha_L0': ONE, 'section_CL_ref': ONE}
PCOL = {'name': None, 'radial_position': LEN, 'chord': LEN, 'pitch': ONE, 'advance_angle': ONE, 'induced_angle': ONE, 'alpha': ONE, 'section_CL': ONE,
        'section_CD': ONE, 'Vi': VEL, 'Vi_x': VEL, 'Vi_t': VEL}


def check(ck):
    for name, wings in (('wing and left fin', skel.Wleft()), ('three wings and a fin', skel.W3())):
        ck.part(name, whole, ck, skel.plane(wings, []), None)
    for name, kw in P.KINDS[:-1]:
        ck.part('propeller: ' + name, props, ck, skel.plane([], [skel.prop('p1', **kw)]), 'J')
    ck.part('propeller at a given rotation rate', props, ck, skel.plane([], [skel.prop('p1'), skel.prop('p2', rot='CW')]), 'rot_per_sec')
    ck.part('wings and propeller', whole, ck, skel.plane(skel.Wleft(), [skel.prop('p1', motor=False)]), 'J')
    ck.part('declared units', declared, ck)
    doc = skel.plane(skel.W1(), [skel.prop('p1', motor=False)])
    for fn in ('stability_derivatives', 'damping_derivatives', 'control_derivatives'):
        for lat, lon in ((True, True), (False, True), (True, False), (False, False)):
            ck.part('%s%s' % (fn, '' if lat and lon else ', no %s length' % ('lateral' if lon else 'longitudinal' if lat else 'reference')),
                    derivatives, ck, skel.plane(skel.W1(), [], lat=lat, lon=lon), fn)
    ck.part('target lift', search, ck, doc, 'target_lift', (FORCE,), {'alpha': ONE}, ONE)
    ck.part('stall onset', search, ck, doc, 'stall_onset', (), {'alpha': ONE, 'lift': FORCE, 'stalled_wing': None, 'span_location': ONE}, None)
    ck.part('pitch trim', search, ck, doc, 'pitch_trim', (FORCE, MOMENT), {'alpha': ONE, 'elevator': ONE}, FORCE, ('L',))
    ck.part('aerodynamic centre', center, ck, doc)


# ----------------------------------------------------------------- scaling
def factor(dim, skip=()):
    r = num(1)
    for k, e in zip('LTM', dim):
        if k in skip:
            continue
        for _ in range(abs(e)):
            r = ir.mul(r, UNIT[k]) if e > 0 else ir.div(r, UNIT[k])
    return r


def scaled(doc, skip=()):
    """the description with every dimensional entry multiplied by its factor"""
    def go(d, path):
        if isinstance(d, dict):
            return {k: go(v, path + (k,)) for k, v in d.items()}
        if isinstance(d, list):
            return [go(v, path) for v in d]
        if not isinstance(d, tuple):
            return d
        dim = ONE
        if path[-1] in LENGTHS:
            dim = LEN
        elif path[-1] == 'area':
            dim = AREA
        elif 'chord' in path and path[-1] in ('root', 'tip'):
            dim = LEN
        elif 'pitch' in path and path[-1] == 'value' and where(path)['type'] == 'value':
            dim = LEN
        return ir.mul(atom(d[1]), factor(dim, skip)) if dim is not ONE else d

    def where(path):
        d = doc
        for k in path[:-1]:
            d = d[k]
        return d
    return go(doc, ())


def aero(w, sc, skip=()):
    a = w.aero()
    if sc:
        for k in AERO:
            if k in STATE:
                w.I.set_item(a, string(k), ir.mul(atom('aero.' + k), factor(STATE[k], skip)))
    return a


def setting(w, key, sc):
    if key is None:
        return NONE
    p = w.pstate(key)
    if sc and key in STATE:
        w.I.set_item(p, string(key), ir.mul(atom('ps.' + key), factor(STATE[key])))
    return p


def expect(ck, w1, w2, name, x, y, dim, skip=(), under=None):
    """y (scaled program) is x times the factor of dimension dim"""
    f = w1.freeze(x if dim is None else w1.I.ewise_phi(lambda v: ir.mul(v, factor(dim, skip)), x))
    ck.same(name, w2.freeze(y), f, RULE, under)


def table(ck, w1, w2, a, b, dims, pfx=''):
    for k in dims:
        present(ck, a, k)
        present(ck, b, k)
        expect(ck, w1, w2, pfx + k, a[k][1], b[k][1], dims[k])


# ------------------------------------------------------------ the solvers
def whole(ck, doc, key):
    r = []
    for sc in (False, True):
        w = ck.world(scaled(doc) if sc else doc)
        mu = w.machup()
        t = P.asdict(w, w.do(mu, 'solve', aero(w, sc), w.ctl(), setting(w, key, sc)).val)
        d = w.do(mu, 'distributions', aero(w, sc), w.ctl(), setting(w, key, sc)).val
        r.append((w, t, [P.asdict(w, w.I.get_item(d, num(k))) for k in (0, 1)]))
    (w1, t1, d1), (w2, t2, d2) = r
    table(ck, w1, w2, t1, t2, LOAD, 'total ')
    table(ck, w1, w2, d1[0], d2[0], WCOL, 'wing column ')
    if key:
        table(ck, w1, w2, d1[1], d2[1], PCOL, 'propeller column ')


def points(w, sc):
    p = P.points(w)
    return w.I.ewise_phi(lambda v: ir.mul(v, UNIT['L']), p) if sc else p


def props(ck, doc, key):
    r = []
    for sc in (False, True):
        w = ck.world(scaled(doc) if sc else doc)
        o = w.do(P.solver(w, points(w, sc)), 'solve', aero(w, sc), setting(w, key, sc))
        if o.dead:
            raise Dead()
        t = P.asdict(w, P.asdict(w, o.val[0])['total'][1])
        d = P.asdict(w, w.I.get_item(w.do(w.machup(), 'distributions', aero(w, sc), w.ctl(), setting(w, key, sc)).val, num(1)))
        v = [w.I.get_item(o.val[1], (SliceV(NONE, NONE, NONE), num(k))) for k in range(4)]
        r.append((w, t, d, v))
    (w1, t1, d1, v1), (w2, t2, d2, v2) = r
    table(ck, w1, w2, t1, t2, dict(LOAD, Thrust=FORCE, Torque=MOMENT), 'total ')
    table(ck, w1, w2, d1, d2, PCOL, 'column ')
    for k in range(4):
        expect(ck, w1, w2, 'flow field %s' % ('density', 'x', 'y', 'z')[k], v1[k], v2[k], DENS if k == 0 else VEL)


def declared(ck):
    """English and SI differ for the motor only"""
    for name, ps, key in (('wings', [], None), ('propeller', [skel.prop('p1')], 'J'), ('propeller, rotation rate', [skel.prop('p1')], 'rot_per_sec'),
                          ('propeller, power', [skel.prop('p1')], 'brake_power')):
        r = []
        for u in ('English', 'SI'):
            w = ck.world(skel.plane(skel.Wleft()[:1] if not ps else [], ps, units=u))
            t = w.do(w.machup(), 'solve', w.aero(), w.ctl(), setting(w, key, False)).val
            r.append((w, P.asdict(w, t)))
        for k in LOAD:
            present(ck, r[0][1], k)
            present(ck, r[1][1], k)
            ck.same('%s %s' % (name, k), r[1][0].freeze(r[1][1][k][1]), r[0][0].freeze(r[0][1][k][1]), RULE2)


# --------------------------------------------------------------- analyses
def homogeneous(w, sc, skip=()):
    """solve as an uninterpreted function; on scaled arguments it is the
    function of the unscaled ones times the factor of the load"""
    M.summarise(w)
    if not sc:
        return
    inner = M.solve_summary

    def solve(I, f, args, kw):
        r = inner(I, f, args, kw)
        if type(r) is not M.Ref or I.obj(r).kind != 'dict':
            return r
        n = tuple(ir.div(x, factor(STATE[k], skip)) if k in STATE else x for k, x in zip(AERO, I.last_load)) + I.last_load[len(AERO):]
        I.last_load = n
        return I.new_dict({k: (TRUE, ir.mul(raw('f:load:' + k, *n), factor(LOAD[k], skip))) for k in M.LOADS})
    w.I.summaries['MachUp.solve'] = solve


def derivatives(ck, doc, fn):
    r = []
    for sc in (False, True):
        w = ck.world(scaled(doc) if sc else doc)
        mu = w.machup()
        homogeneous(w, sc)
        r.append((w, w.dict_items(w.do(mu, fn, aero(w, sc), w.ctl(), setting(w, None, sc)).val)))
    (w1, a), (w2, b) = r
    for k in a:
        present(ck, b, k)
        expect(ck, w1, w2, k, a[k][1], b[k][1], ONE)


def search(ck, doc, fn, targets, dims, tol, skip=()):
    r = []
    for sc in (False, True):
        w = ck.world(scaled(doc, skip) if sc else doc)
        mu = w.machup()
        homogeneous(w, sc, skip)
        tg = [ir.mul(atom('target%d' % i), factor(d, skip)) if sc else atom('target%d' % i) for i, d in enumerate(targets)]
        kw = {}
        if tol is not None:
            kw['error'] = ir.mul(atom('tol'), factor(tol, skip)) if sc else atom('tol')
        o = w.do(mu, fn, *tg, aero_state=aero(w, sc, skip), control_state=w.ctl(), prop_state=w.pstate('J'), **kw)
        r.append((w, o))
    (w1, a), (w2, b) = r
    ck.same('raises', b.raise_cond(), a.raise_cond(), RULE)
    x, y = w1.dict_items(a.val), w2.dict_items(b.val)
    for k in dims:
        present(ck, x, k)
        present(ck, y, k)
        ck.same(k + ' present', y[k][0], x[k][0], RULE)
        expect(ck, w1, w2, k, x[k][1], y[k][1], dims[k], skip, None if x[k][0] is TRUE else x[k][0])


def center(ck, doc):
    r = []
    for sc in (False, True):
        w = ck.world(scaled(doc) if sc else doc)
        mu = w.machup()
        homogeneous(w, sc)
        r.append((w, w.do(mu, 'find_aero_center', aero(w, sc), w.ctl(), w.pstate('J')).val))
    (w1, a), (w2, b) = r
    for i, k in enumerate('xyz'):
        expect(ck, w1, w2, k, w1.I.get_item(a, num(i)), w2.I.get_item(b, num(i)), LEN)
