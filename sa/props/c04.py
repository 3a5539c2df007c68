"""Defaults.  Each operation is analysed twice from the same point: with the
arguments as a caller may give them (entries that are present or absent
according to unknown bits, arguments left out, settings under a propeller's
name) and with the completed arguments, in which every missing entry carries
its documented default.  Results and raise conditions are compared by value
numbering.  solve and distributions are expanded on aircraft with wings,
propellers and both; the analyses use the summary of solve, in which missing
entries have been completed the same way."""
from .common import *
from . import modular as M
from .history import at
from .c02 import PURE, LEAD

RULE = 'a missing entry means its documented default and a given one is used'
# an advance ratio says nothing about the propeller of an aircraft at rest
MOVING = not_(ir.eq(atom('aero.V_mag'), num(0)))
ASSUMPTIONS = ['the airspeed is not zero']
DEF = dict({k: num(0) for k in AERO}, V_mag=num(10), rho=num('0.0023769'))


def check(ck):
    both = skel.plane(skel.Wleft()[:1], [skel.prop('p1'), skel.prop('p2', motor=False, rot='CW')])
    one = skel.plane(skel.W1(), [skel.prop('p1', motor=False)])
    wings = skel.plane(skel.Wleft(), [])
    props = skel.plane([], [skel.prop('p1')])
    for name, doc in (('wings', wings), ('propeller', props), ('whole aircraft', one)):
        for op in ('solve', 'distributions'):
            ck.part('%s, %s' % (op, name), variants, ck, doc, op)
    for op in ('solve', 'distributions'):
        ck.part('%s, settings by name' % op, named, ck, both, op)
    ck.part('propeller solver on its own', solver, ck, props)
    ck.part('keys in any order', order, ck, one)
    for op in PURE:
        M.part(ck, op, one, analysis, op)
    M.part(ck, 'parameters with defaults', one, tolerances)


def fill(w, d, keys, default):
    """the complete dictionary equivalent to d"""
    f = w.dict_items(d) if type(d) is not Node else {}
    out = {}
    for k in keys:
        p, v = f.get(k, (FALSE, None))
        x = default(k)
        out[k] = (TRUE, v if p is TRUE else (x if p is FALSE else ir.ite(p, v, x)))
    return w.I.new_dict(out)


def states(w, mode):
    """(given, complete) argument triples"""
    a = {'-': NONE, 'm': w.aero(True), 'f': w.aero()}[mode[0]]
    c = {'-': NONE, 'm': w.ctl(True), 'f': w.ctl(), 'e': w.I.new_dict({})}[mode[1]]
    p = {'-': NONE, 'J': w.pstate('J'), 'r': w.pstate('rot_per_sec'), 'e': w.I.new_dict({})}[mode[2]]
    A = fill(w, a, AERO, lambda k: DEF[k])
    C = fill(w, c, CTL, lambda k: num(0))
    P = w.state('ps', ('J',), vals={'J': num('0.5')}) if mode[2] in '-e' else p
    return (a, c, p), (A, C, P)


MODES = ('mmJ', '---', 'f--', '-fJ', 'mfr', 'fm-', '-mr', 'fee')


def ways(op, t):
    kw = dict(zip(('aero_state', 'control_state', 'prop_state'), t))
    return {k: v for k, v in kw.items() if v is not NONE}


def both_ways(ck, w, mu, op, lead, given, full, name, **kw):
    def run(t):
        w.I.last_load = None
        o, s = at(w, w.I.st, lambda: w.do(mu, op, *lead, **dict(ways(op, t), **kw)))
        return o, s
    g, gs = run(given)
    x, xs = run(full)
    ck.count('argument forms')
    pair(ck, w, name, g, gs, x, xs)


def pair(ck, w, name, g, gs, x, xs):
    ck.same(name + ' raises', g.raise_cond(), x.raise_cond(), RULE, MOVING)
    if g.dead or x.dead:
        if g.dead != x.dead:
            ck.fail(name, RULE, detail='one form has no normal exit')
        return
    from .c03 import compare_as
    a, b = w.in_state(gs, lambda: w.freeze(g.val)), w.in_state(xs, lambda: w.freeze(x.val))
    compare_as(ck, w, name, a, b, MOVING, RULE)


def variants(ck, doc, op):
    w = ck.world(doc)
    mu = w.machup()
    for mode in MODES:
        given, full = states(w, mode)
        both_ways(ck, w, mu, op, (), given, full, mode)
    given, full = states(w, '---')

    def pos():
        return w.do(mu, op)
    g, gs = at(w, w.I.st, pos)
    x, xs = at(w, w.I.st, lambda: w.do(mu, op, *full))
    pair(ck, w, 'no argument', g, gs, x, xs)


def named(ck, doc, op):
    w = ck.world(doc)
    mu = w.machup()
    I = w.I
    S = lambda k, n='J': w.state('ps.' + k, (n,))
    D = lambda **k: I.new_dict({a: (TRUE, b) for a, b in k.items()})
    c1, c2 = S('1'), S('2', 'rot_per_sec')
    a, c = w.aero(True), w.ctl(True)
    J = atom('ps.J')
    forms = [('both named, any order', D(prop1=c1, prop2=c2), D(prop2=c2, prop1=c1)),
             ('common setting', D(J=J), D(prop1=D(J=J), prop2=D(J=J))),
             ('one named, common setting for the other', D(prop1=c2, J=J), D(prop1=c2, prop2=D(J=J))),
             ('one named, common rotation rate for the other', D(prop2=c1, rot_per_sec=J), D(prop1=D(rot_per_sec=J), prop2=c1))]
    for name, g, x in forms:
        both_ways(ck, w, mu, op, (), (a, c, g), (a, c, x), name)


def solver(ck, doc):
    from . import propcmp as P
    w = ck.world(doc)
    s = P.solver(w, P.points(w, 'p1'))
    for mode in MODES:
        if mode[1] != 'm':
            continue
        for m in (mode, '-' + mode[1:]):
            given, full = states(w, m)
            g, gs = at(w, w.I.st, lambda: w.do(s, 'solve', given[0], given[2]))
            x, xs = at(w, w.I.st, lambda: w.do(s, 'solve', full[0], full[2]))
            pair(ck, w, m, g, gs, x, xs)


def order(ck, doc):
    w = ck.world(doc)
    mu = w.machup()
    a, c, p = w.aero(True), w.ctl(True), w.pstate('J')
    A = w.state('aero', ('rho', 'V_mag'), tuple(reversed(AERO[2:])))
    C = w.state('ctl', (), tuple(reversed(CTL)))
    for op in ('solve', 'distributions'):
        both_ways(ck, w, mu, op, (), (a, c, p), (A, C, p), op)


def analysis(ck, w, mu, op):
    if op == 'stall_airspeed':
        w.I.summaries['MachUp.stall_onset'] = M.onset_summary
    lead = (atom('target.lift'),) if op in LEAD else ()
    for mode in MODES:
        given, full = states(w, mode)
        both_ways(ck, w, mu, op, lead, given, full, mode)


def tolerances(ck, w, mu):
    """parameters of the searches"""
    L = atom('target.lift')
    a, c, p = w.aero(True), w.ctl(True), w.pstate('J')
    both = lambda op, lead, lead2, kw, n: pair(ck, w, n, *sum((at(w, w.I.st, lambda: w.do(mu, op, *l, **dict(k, aero_state=a, control_state=c, prop_state=p)))
                                                               for l, k in ((lead, {}), (lead2, kw))), ()))
    e = num('1e-9')
    both('target_lift', (L,), (L,), {'error': e}, 'tolerance of target_lift')
    both('pitch_trim', (L,), (L, num(0)), {'error': e}, 'moment target and tolerance of pitch_trim')
    w.I.summaries['MachUp.stall_onset'] = M.onset_summary
    both('stall_airspeed', (L,), (L,), {}, 'stall_airspeed')
