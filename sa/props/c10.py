"""Stall onset and aerodynamic centre.  The stall search is compared with the
definition twice: modularly (solve and the section-stall report are
uninterpreted functions of the complete state), and with the lifting-line
solution expanded, so that what counts as a stalled section, which wing is
named and where on its span are those of the reference wing model.  The
aerodynamic centre is compared with the least-squares fits it is defined by."""
from .common import *
from . import modular as M
from ..world import World

RULE = 'stall onset is the first angle of attack of the search at which a section exceeds its maximum lift'
RULE2 = 'the aerodynamic centre follows from the fits of lift, drag and moment against angle of attack'


def check(ck):
    full = skel.plane(skel.W1(), [skel.prop('p1', motor=False)])
    for mode, rep in (('full', False), ('full', True), ('maybe', False), ('none', False)):
        M.part(ck, 'stall onset, %s states%s' % (mode, ', report file' if rep else ''), full, onset, mode, rep)
        if not rep:
            M.part(ck, 'aerodynamic centre, %s states' % mode, full, center, mode)
    ck.part('section stall', expanded, ck, skel.plane(skel.W1(), []))
    ck.part('section stall, several wings', expanded, ck, skel.plane(skel.W3() if ck.thorough() else skel.Wleft(), []))


def states(w, mode):
    if mode == 'none':
        return NONE, NONE, NONE
    return w.aero(mode == 'maybe'), w.ctl(mode == 'maybe'), w.pstate('J') if mode == 'full' else NONE


def compare(ck, w, got, want, rule):
    g, x = w.dict_items(got.val), w.dict_items(want.val)
    ck.same('exception', got.raise_cond(), want.raise_cond(), rule)
    for k in x:
        present(ck, g, k)
        ck.same('reported when: ' + k, g[k][0], x[k][0], rule)
        ck.same(k, w.freeze(g[k][1]), w.freeze(x[k][1]), rule, None if x[k][0] is TRUE else x[k][0])


def onset(ck, w, mu, mode, report):
    a, c, p = states(w, mode)
    kw = {'filename': string('report.json')} if report else {}
    got = w.do(mu, 'stall_onset', a, c, p, **kw)
    if not getattr(w.I, 'stall_hits', 0):
        # the section report is obtained in another way: only the expanded comparison applies
        return
    ll = w.I.get_attr(mu, 'myllmodel')
    rep = w.method(ll, '_find_stall_location')
    from ..world import PyFunc
    stalled = PyFunc(lambda I, args, kw: I.call(rep, [], {}))
    a, c, p = states(w, mode)
    want = w.call(w.specfn('analysis', 'stall_onset'), mu, stalled, a, c, p, TRUE if report else FALSE)
    compare(ck, w, got, want, RULE)


def expanded(ck, doc):
    w = ck.world(doc)
    mu = w.machup()
    got = w.do(mu, 'stall_onset', w.aero(), w.ctl(), NONE)
    want = w.call(w.specfn('analysis', 'wing_stall'), skel.build(w.I, doc), w.aero(), w.ctl())
    compare(ck, w, got, want, RULE)


def center(ck, w, mu, mode):
    from .c07 import refs
    from . import propcmp as P
    a, c, p = states(w, mode)
    got = w.do(mu, 'find_aero_center', a, c, p)
    S, lon, lat = refs(w)
    a, c, p = states(w, mode)
    want = w.call(w.specfn('analysis', 'aero_center'), mu, a, c, p, S, lon, P.cg(w, w.doc))
    ck.same('exception', got.raise_cond(), want.raise_cond(), RULE2)
    for k in range(3):
        ck.same('component %d' % k, w.freeze(w.I.get_item(got.val, num(k))), w.freeze(w.I.get_item(want.val, num(k))), RULE2)
