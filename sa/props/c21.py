"""Rejection of invalid settings.  Every setting with a set of choices is given
(in an airplane file or through the construction interface) each documented
value, every other constant the program compares it with, and one value that
equals no constant of the program; the abstract runs show whether the aircraft
can be built and solved.  For states, the condition under which the solvers
raise is compared with the condition that makes the state unusable."""
from .common import *
from .c20 import V, in_code
from . import c05

REJECT = 'a setting outside the documented choices is rejected'
ACCEPT = 'a documented setting is accepted'
STATE = 'an unusable state is rejected, a usable one is not'
OTHER = '\x7fanother'
FO = ('alpha_L0', 'CL_alpha', 'Cm_L0', 'Cm_alpha', 'CD0', 'CD0_L', 'CD0_L2', 'CL_max')


def check(ck):
    wingdoc = lambda: skel.plane([skel.wing('wing', 1, 'right', foils=2, control=True)], [])
    two = lambda: skel.plane([skel.wing('wing', 1, 'both', foils=1), skel.wing('outer', 2, 'both', 1, 'tip', foils=1)], [])
    propdoc = lambda: skel.plane([], [skel.prop('p1', motor=False)])

    def put(doc, path, v):
        d = doc
        for k in path[:-1]:
            d = d[k]
        d[path[-1]] = v
        return doc
    P = ('propellers', 'prop1')
    full = {'default': {}, 'ratio': {'value': skel.A('p1.pitch')}, 'value': {'value': skel.A('p1.pitch')}, 'from_file': {'filename': 'pitch.txt'}}
    cfull = {'default': {}, 'linear': {'root': skel.A('p1.croot'), 'tip': skel.A('p1.ctip')}, 'elliptical': {'root': skel.A('p1.croot')},
             'from_file': {'filename': 'chord.txt'}}
    pitch = lambda v: dict({'value': skel.A('p1.pitch')}, **dict(full.get(v, {}), type=v))
    chord = lambda v: dict({'root': skel.A('p1.croot'), 'tip': skel.A('p1.ctip')}, **dict(cfull.get(v, {}), type=v))
    settings = (
        ('side of a wing', lambda v: put(wingdoc(), ('wings', 'wing', 'side'), v), ('both', 'left', 'right'), ()),
        ('connection location', lambda v: put(two(), ('wings', 'outer', 'connect', 'location'), v), ('tip',), ()),
        ('units', lambda v: put(wingdoc(), ('condition', 'units'), v), ('English', 'SI', None), ('english', 'si', 'Si')),
        ('rotation direction', lambda v: put(propdoc(), P + ('rotation_direction',), v), ('CCW', 'CW'), ('ccw', 'cw', 1, -1, 0)),
        ('pitch law', lambda v: put(propdoc(), P + ('pitch',), pitch(v)), tuple(full), ()),
        ('chord law', lambda v: put(propdoc(), P + ('chord',), chord(v)), tuple(cfull), ()),
    )
    for name, mk, valid, alias in settings:
        ck.part('file: ' + name, choices, ck, name, lambda w, v, mk=mk: read(w, mk(v)), valid, alias, 7 if name != 'rotation direction' else 2)
    code = (
        ('side of a wing', lambda v: put(wingdoc(), ('wings', 'wing', 'side'), v), ('both', 'left', 'right'), ()),
        ('connection location', lambda v: put(two(), ('wings', 'outer', 'connect', 'location'), v), ('tip',), ()),
        ('rotation direction', lambda v: put(propdoc(), P + ('rotation_direction',), v), ('CCW', 'CW'), ('ccw', 'cw', 1, -1, 0)),
        ('pitch law', lambda v: put(propdoc(), P + ('pitch',), pitch(v)), tuple(full), ()),
        ('chord law', lambda v: put(propdoc(), P + ('chord',), chord(v)), tuple(cfull), ()),
    )
    for name, mk, valid, alias in code:
        ck.part('in code: ' + name, choices, ck, name, lambda w, v, mk=mk: assemble(w, mk(v)), valid, alias, 7 if name != 'rotation direction' else 2)
    for side in ('both', 'left', 'right'):
        ck.part('in code: airfoil location, %s' % side, choices, ck, 'airfoil location', lambda w, v, s=side: foil(w, s, v), ('both', 'root', 'tip'), (), 7)
    ck.part('in code: blade airfoil stations', choices, ck, 'blade airfoil stations', stations, ('tip', 0.5), ('Tip', 'TIP', 'root', 'Root', 'ROOT'), None)
    ck.part('blade airfoils without stations', single, ck, 'a blade airfoil has no station', lambda w: stations(w, None))
    ck.part('motor without units, file', single, ck, 'motor without units', lambda w: throttle(w, True))
    ck.part('motor without units, in code', single, ck, 'motor without units', lambda w: throttle(w, False))
    ck.part('in code: type of solution', choices, ck, 'type of solution', stype, ('linear',), (), 7)
    # states
    for label, doc in (('wings', wingdoc()), ('propellers', propdoc()), ('wings and propellers', skel.plane(skel.W1(), [skel.prop('p1', motor=False)]))):
        ck.part('flight state, ' + label, flight, ck, doc)
    for motor in (False, True):
        for label, wings in (('alone', []), ('with a wing', skel.W1())):
            ck.part('propeller state %s, %s' % (label, 'motor' if motor else 'no motor'), setting, ck, skel.plane(wings, [skel.prop('p1', motor=motor)]))
    both = skel.plane(skel.W1(), [skel.prop('p1', motor=False)])
    for op in ('distributions',) + c05.OPS + ('stability_derivatives', 'damping_derivatives', 'control_derivatives'):
        for gone in ('rho', 'V_mag'):
            if op != 'stall_airspeed' or gone != 'V_mag':
                ck.part('%s without %s' % (op, gone), incomplete, ck, both, op, gone)


# -------------------------------------------------------------------- choices
def read(w, doc):
    mu = w.machup(doc)
    return [w.do(mu, 'solve', w.aero(), w.ctl(), w.pstate('rot_per_sec'))]


def assemble(w, doc):
    docs = dict(doc)
    for k in ('wings', 'propellers'):
        docs[k] = {n: dict(x) for n, x in doc.get(k, {}).items()}
    w.raws = {}
    ap = in_code_raw(w, docs)
    out = []
    if doc.get('wings'):
        m = w.call(w.attr('machup', 'LLModel'), ap)
        out.append(m)
        if not m.dead:
            out.append(w.do(m.val, 'solve', string('linear'), w.aero(), w.ctl()))
    if doc.get('propellers'):
        m = w.call(w.attr('machup', 'PropsSolver'), ap, NONE)
        out.append(m)
        if not m.dead:
            out.append(w.do(m.val, 'solve', w.aero(), w.pstate('rot_per_sec')))
    return out


def in_code_raw(w, doc):
    """as in_code of C20, for values of any type in the places of choices"""
    from . import c20
    save = c20.string
    c20.string = lambda x: x if isinstance(x, Node) else const(x)
    try:
        return in_code(w, doc)
    finally:
        c20.string = save


def const(v):
    if v is None:
        return NONE
    return string(v) if isinstance(v, str) else ir.const(v)


def foil(w, side, v):
    doc = skel.plane([skel.wing('wing', 1, side, foils=1, control=False)], [])
    ap = in_code_raw(w, doc)
    o = w.do(ap, 'add_wing', string('second'), side=string(side))
    r = w.do(o.val, 'airfoil', string('f'), const(v), **{k: atom('f.' + k) for k in FO})
    return [r]


def stations(w, v):
    doc = skel.plane([], [skel.prop('p1', foils=1, motor=False)])
    del doc['propellers']['prop1']['airfoils']['NACA2412']
    doc['propellers']['prop1']['airfoils'] = {}
    ap = in_code_raw(w, doc)
    o = w.do(ap, 'add_prop', string('prop1'), **c20_args(w, doc['propellers']['prop1']))
    there = ('tip', 'root')[str(v).lower() == 'tip'] if isinstance(v, str) else 'root'
    for nm, pos in (('A', string(there)), ('B', const(v))):
        w.do(o.val, 'airfoil', string(nm), span_position=pos, **{k: atom('%s.%s' % (nm, k)) for k in FO})
    s = w.call(w.attr('machup', 'PropsSolver'), ap, NONE)
    return [s] if s.dead else [s, w.do(s.val, 'solve', w.aero(), w.pstate('rot_per_sec'))]


def throttle(w, file):
    doc = skel.plane([], [skel.prop('p1', motor=True)])
    for k in list(doc.get('condition', {})):
        if k == 'units':
            del doc['condition'][k]
    if file:
        s = w.machup(doc)
        return [w.do(s, 'solve', w.aero(), w.ctl(), w.pstate('electric_throttle'))]
    s = w.call(w.attr('machup', 'PropsSolver'), in_code_raw(w, doc), NONE).val
    return [w.do(s, 'solve', w.aero(), w.pstate('electric_throttle'))]


def single(ck, label, run):
    from ..interp import Dead
    w = ck.world(None)
    w.valid = False
    n0 = len(w.I.sink)
    try:
        outs = run(w)
        dead = any(o.dead for o in outs)
    except (Dead, Stop, AttributeError):
        if not w.I.sink[n0:]:
            raise
        dead = True
    last = w.I.sink[-1][0] if dead else None
    if not dead or last.implicit:
        return ck.fail(label, REJECT, last.loc if dead else where(outs), detail='%s, and no error says so' % label)
    ck.ok(label)


def c20_args(w, x):
    from .c20 import prop_args
    return prop_args(w, x)


def stype(w, v):
    w.doc = skel.plane([skel.wing('wing', 1, 'right', foils=1)], [])
    ap = w.call(w.attr('machup', 'Airplane'), inputfile=atom('infile', 'str')).val
    m = w.call(w.attr('machup', 'LLModel'), ap).val
    return [w.do(m, 'solve', const(v), w.aero(), w.ctl())]


def choices(ck, name, run, valid, alias, number):
    ir.PROBED.clear()
    ir.PROBE = string(OTHER)
    try:
        verdict(ck, name, run, OTHER, False)
    finally:
        ir.PROBE = None
    seen = sorted((n.args[0] for n in ir.PROBED if n.op == 's'), key=str)
    ck.count('compared constants', len(seen))
    ok = list(valid) + list(alias)
    for v in ok:
        verdict(ck, name, run, v, True)
    low = {str(v).lower() for v in ok}
    for v in seen:
        if v not in ok and v.lower() not in low:
            verdict(ck, name, run, v, False)
    if number is not None:
        verdict(ck, name, run, number, False)


def verdict(ck, name, run, v, valid):
    from ..interp import Dead
    w = ck.world(None)
    w.valid = False
    outs, n0 = [], len(w.I.sink)
    try:
        outs = run(w, v)
        dead = any(o.dead for o in outs)
    except (Dead, Stop, AttributeError):
        if not any(True for _ in w.I.sink[n0:]):
            raise
        dead = True
    label = '%s = %s' % (name, 'any other value' if v == OTHER else repr(v))
    if not valid:
        if dead:
            return ck.ok(label)
        # every normal exit must be impossible
        return ck.fail(label, REJECT, where(outs), outs[-1].node if outs else None, detail='%s is accepted' % label)
    bad = [(e, s) for e, s in w.I.sink[n0:] if not e.implicit and not converging(conj(s.pc)) and ck.possible(conj(s.pc))]
    if dead:
        e = w.I.sink[-1][0] if len(w.I.sink) > n0 else None
        return ck.fail(label, ACCEPT, e.loc if e is not None else None, detail='%s is rejected' % label)
    for e, s in bad:
        return ck.fail(label, ACCEPT, e.loc, conj(s.pc), detail='%s may be rejected' % label)
    ck.ok(label)


def where(outs):
    for o in reversed(outs):
        if o.node is not None:
            return o.node.loc
    return None


def converging(c):
    """depends on the outcome of an iteration"""
    return any(q.op in ('loopval', 'lsys', 'li', 'mu') or q.op.startswith('f:root') or q.op.startswith('f:ode') for q in ir.walk(c))


# --------------------------------------------------------------------- states
def explicit(o):
    c = FALSE
    for e, s in o.raises:
        p = conj(s.pc)
        if not e.implicit and not converging(p):
            c = or_(c, p)
    return c


def flight(ck, doc):
    w = ck.world(doc)
    mu = w.machup()
    w.valid = False
    f = {'alpha': (TRUE, atom('aero.alpha')), 'V_mag': (raw('has', 'aero', 'V_mag'), atom('aero.V_mag')), 'rho': (raw('has', 'aero', 'rho'), atom('aero.rho'))}
    o = w.do(mu, 'solve', w.I.new_dict(f, 'aero'), w.ctl(), w.pstate('rot_per_sec'))
    bad = or_(not_(f['V_mag'][0]), not_(f['rho'][0]))
    ck.same('raises', explicit(o), bad, STATE)
    silent(ck, w, o, bad)


def silent(ck, w, o, bad):
    """no normal exit and no error of the language under an unusable state"""
    if o.dead:
        return ck.fail('normal exit', STATE, None, detail='no usable state')
    keep = [p for p in o.state.pc]
    if not keep:
        return
    c = and_(conj(keep), bad)
    if ck.possible(c):
        ck.fail('normal exit', STATE, c.loc, c, detail='a result is returned for an unusable state')
    else:
        ck.ok('normal exit')


def setting(ck, doc):
    w = ck.world(doc)
    mu = w.machup()
    w.valid = False
    keys = ('J', 'rot_per_sec', 'brake_power', 'electric_throttle')
    f = {'other': (TRUE, atom('ps.other'))}
    for k in keys:
        f[k] = (raw('has', 'ps', k), atom('ps.' + k))
    aero = w.aero()
    o = w.do(mu, 'solve', aero, w.ctl(), w.I.new_dict(f, 'ps'))
    h = {k: f[k][0] for k in keys}
    motor = 'electric_motor' in doc['propellers']['prop1']
    v, j = atom('aero.V_mag'), atom('ps.J')
    none = and_(and_(not_(h['J']), not_(h['rot_per_sec'])), and_(not_(h['brake_power']), not_(h['electric_throttle'])))
    zero = and_(and_(h['J'], not_(h['rot_per_sec'])), or_(ir.eq(j, num(0)), ir.eq(v, num(0))))
    bad = or_(none, zero)
    if not motor:
        only = and_(and_(not_(h['J']), not_(h['rot_per_sec'])), and_(not_(h['brake_power']), h['electric_throttle']))
        bad = or_(bad, only)
    ck.same('raises', explicit(o), bad, STATE)
    silent(ck, w, o, bad)


def incomplete(ck, doc, op, gone):
    w = ck.world(doc)
    mu = w.machup()
    w.valid = False
    f = {k: (TRUE, atom('aero.' + k)) for k in AERO if k != gone}
    kw = dict(aero_state=w.I.new_dict(f, 'aero'), control_state=w.ctl(), prop_state=w.pstate('rot_per_sec'))
    lead = [atom('target.%d' % i) for i in range(c05.LEAD.get(op, 0))]
    o = w.do(mu, op, *lead, **kw)
    if o.dead:
        return ck.ok('rejected')
    ck.fail('rejected', STATE, o.node.loc if o.node is not None else None, o.node, detail='%s returns a result although %s is not given' % (op, gone))
