"""Effects on the caller's objects.  Every dictionary, list and array handed
to a public operation is frozen to a value graph before the call and again on
every normal and exceptional exit; a different graph under the condition of
that exit is a modification.  The aircraft operations are analysed with
present, optional and missing state entries, with per-propeller settings, with
and without a report file; solve, distributions and the two solvers are
expanded, the analyses built on solve use its summary (solve itself having
been shown not to write to its arguments)."""
from .common import *
from . import modular as M
from . import propcmp as P

RULE = "an operation leaves the caller's objects as they were, on every exit"
ANALYSES = ('find_aero_center', 'stall_onset', 'stall_airspeed', 'derivatives', 'stability_derivatives', 'damping_derivatives',
            'control_derivatives', 'target_lift', 'pitch_trim')
REPORTS = ('find_aero_center', 'stall_onset', 'stall_airspeed', 'derivatives', 'target_lift', 'pitch_trim')


def check(ck):
    both = skel.plane(skel.Wleft(), [skel.prop('p1'), skel.prop('p2', motor=False, rot='CW')])
    one = skel.plane(skel.W1(), [skel.prop('p1', motor=False)])
    for mode in ('full', 'maybe', 'nested'):
        ck.part('solve, %s states' % mode, direct, ck, both, 'solve', mode, False)
    ck.part('solve, report file', direct, ck, one, 'solve', 'full', True)
    ck.part('distributions, maybe states', direct, ck, one, 'distributions', 'maybe', False)
    ck.part('distributions, report file', direct, ck, one, 'distributions', 'nested', True)
    ck.part('wing only', direct, ck, skel.plane(skel.W1(), []), 'solve', 'maybe', False)
    ck.part('propellers only', direct, ck, skel.plane([], [skel.prop('p1')]), 'solve', 'nested', False)
    ck.part('local flow', local, ck, skel.plane(skel.W1(), []))
    ck.part('propeller solver', points, ck, skel.plane([], [skel.prop('p1')]))
    for op in ANALYSES:
        for mode in ('full', 'maybe', 'nested', 'flight only'):
            for rep in ((False, True) if op in REPORTS and mode in ('full', 'maybe') else (False,)):
                M.part(ck, '%s, %s states%s' % (op, mode, ', report file' if rep else ''), one, analysis, op, mode, rep)
    ck.part('construction', construction, ck)


class Watch(object):
    """objects of the caller with the value graphs they had before the call"""

    def __init__(self, w, objs):
        self.w = w
        self.objs = [(n, v, w.freeze(v)) for n, v in objs if type(v) is not Node]

    def compare(self, ck, o):
        w = self.w
        if not o.dead:
            for n, v, b in self.objs:
                self.one(ck, n + ' on return', w.freeze(v), b, None)
        k = 0
        for e, st in o.raises:
            c = None
            for n, v, b in self.objs:
                a = w.in_state(st, lambda: w.freeze(v))
                if a is b:
                    continue
                c = conj(st.pc) if c is None else c
                self.one(ck, '%s on %s' % (n, e.name), a, b, c)
            k += 1
        ck.count('exits', k + (not o.dead))

    def one(self, ck, name, a, b, c):
        ck.same(name, a, b, RULE, c)


def states(w, mode):
    if mode == 'flight only':
        return w.aero(True), NONE, NONE
    p = w.pstate('J')
    if mode == 'maybe':
        p = w.state('ps', ('rot_per_sec',), ('J',))
    if mode == 'nested':
        p = w.I.new_dict({k: (TRUE, w.state('ps.' + k, ('J',), ('rot_per_sec',))) for k in ('prop1', 'prop2')})
    return w.aero(mode != 'full'), w.ctl(mode != 'full'), p


def extra(w, d):
    """an entry that is none of the operation's business"""
    w.I.set_item(d, string('comment'), atom('comment'))
    return d


def args(w, mode):
    a, c, p = states(w, mode)
    for d in (a, c):
        if type(d) is Ref:
            extra(w, d)
    return a, c, p


def run(ck, w, obj, op, a, c, p, lead=(), **kw):
    watch = Watch(w, (('aero_state', a), ('control_state', c), ('prop_state', p)))
    kw = dict(kw, aero_state=a, control_state=c, prop_state=p)
    watch.compare(ck, w.do(obj, op, *lead, **kw))


def direct(ck, doc, op, mode, rep):
    w = ck.world(doc)
    mu = w.machup()
    a, c, p = args(w, mode)
    run(ck, w, mu, op, a, c, p, **({'filename': string('out.json')} if rep else {}))


def analysis(ck, w, mu, op, mode, rep):
    a, c, p = args(w, mode)
    if op == 'stall_airspeed':
        w.I.summaries['MachUp.stall_onset'] = M.onset_summary
    lead = (atom('target.lift'),) if op in ('target_lift', 'pitch_trim', 'stall_airspeed') else ()
    run(ck, w, mu, op, a, c, p, lead, **({'filename': string('out.json')} if rep else {}))


def local(ck, doc):
    w = ck.world(doc)
    ap = w.call(w.attr('machup', 'Airplane'), inputfile=atom('infile', 'str')).val
    ll = w.call(w.attr('machup', 'LLModel'), ap).val
    n = w.I.arr(w.do(w.I.get_attr(ll, '_grid'), 'get_control_point_pos').val)[0][0]
    for keys, may in ((('V_mag', 'rho'), AERO[2:]), ((), AERO)):
        a = w.state('aero', keys, may)
        la = w.I.new_arr((n, num(4)), raw('get', atom('local', 'arr'), ir.iv(0), ir.iv(1)))
        w.I.set_item(a, string('local_state'), la)
        c = w.ctl(True)
        watch = Watch(w, (('aero_state', a), ('local_state', la), ('control_state', c)))
        watch.compare(ck, w.do(ll, 'solve', string('linear'), a, c))


def points(ck, doc):
    w = ck.world(doc)
    pts = P.points(w, 'p1')
    s = P.solver(w, pts)
    a, p = w.aero(True), w.state('ps', ('J',), ('rot_per_sec',))
    watch = Watch(w, (('aero_state', a), ('prop_state', p), ('wing_points', pts)))
    watch.compare(ck, w.do(s, 'solve', a, p))


def construction(ck):
    """the containers given to the construction interface, from the call that
    takes them to the end of an analysis of the finished aircraft"""
    from .c15 import FO, full_dims
    w = ck.world()
    I = w.I
    dd = lambda m: I.new_dict({k: (TRUE, v) for k, v in m.items()})
    given = []

    def keep(name, v):
        given.append((name, v))
        return v
    pos = keep('airplane position', I.new_arr((num(3),), raw('get', atom('plane.pos', 'arr'), ir.iv(0))))
    ap = w.call(w.attr('machup', 'Airplane'), string('plane'), pos).val
    A = lambda k: atom('w1.' + k)
    wp = keep('wing position', I.new_list([A('dx'), A('dy'), A('dz')]))
    ct = keep('connect_to', I.new_list([NONE, string('tip')]))
    wg = w.do(ap, 'add_wing', string('w1'), connect_to=ct, side=string('both'), position=wp, semispan=A('span'), sweep=A('sweep'),
              dihedral=A('dihedral'), mount_angle=A('mount'), washout=A('washout'), root_chord=A('croot'), tip_chord=A('ctip'), grid=atom('int:w1.grid'),
              yoffset=A('yoffset')).val
    w.do(wg, 'airfoil', string('A'), string('both'), **{k: atom('w1.f.' + k) for k in FO})
    sp = keep('control span', I.new_list([A('cs0'), A('cs1')]))
    sc = keep('control chord', I.new_list([A('cc0'), A('cc1')]))
    mix = keep('control mix', dd({k: A('mix' + k[0]) for k in CTL}))
    w.do(wg, 'control_surface', percent_span=sp, percent_chord=sc, mix=mix, sealed=A('sealed'))
    dims = full_dims(w, pitch_info=keep('pitch_info', dd({'type': string('ratio'), 'value': atom('p1.pitch'), 'pitch_increment': atom('p1.pinc')})),
                     chord_info=keep('chord_info', dd({'type': string('linear'), 'root': atom('p1.croot')})),
                     electric_motor=keep('electric_motor', dd({'has_motor': TRUE, 'motor_kv': atom('p1.kv'), 'motor_resistance': atom('p1.rm'),
                                                               'motor_no_load_current': atom('p1.io'), 'gear_reduction': atom('p1.gr'),
                                                               'battery_resistance': atom('p1.rb'), 'battery_voltage': atom('p1.eo'),
                                                               'speed_control_resistance': atom('p1.rc')})))
    keep('propeller position', dims['position'])
    keep('propeller orientation', dims['orientation'])
    watch = Watch(w, given)
    p = w.do(ap, 'add_prop', string('p1'), **dims).val
    w.do(p, 'airfoil', string('A'), **{k: atom('p1.f.' + k) for k in FO})
    w.do(ap, 'cg_location', atom('CGx'), atom('CGy'), atom('CGz'))
    w.do(ap, 'set_reference_lengths', atom('ref.lat'), atom('ref.long'))
    mu = w.call(w.attr('machup.MU', 'MachUp'), inputAirplane=ap).val
    o = w.do(mu, 'solve', w.aero(), w.ctl(), w.pstate('J'))
    watch.compare(ck, o)
    watch.compare(ck, w.do(mu, 'distributions', w.aero(), w.ctl(), w.pstate('J')))
    watch.compare(ck, w.do(mu, 'create_stl', filename=string('x.stl')))
