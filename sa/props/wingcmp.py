"""wing-model comparisons shared by C12 and C13"""
from .common import *
from .. import skel


def run(ck, fn):
    for name, wings in wing_skeletons(ck):
        ck.part(name, case, ck, skel.plane(wings, []), fn)


def quantities(w, q):
    return w.dict_items(q)


def case(ck, doc, fn):
    ck.part('full state', full, ck, doc, fn)
    ck.part('optional keys', maybe, ck, doc, fn)
    ck.part('prescribed local flow', local, ck, doc, fn, True)
    ck.part('prescribed local flow, no free stream', local, ck, doc, fn, False)
    ck.part('no state', nostate, ck, doc, fn)


def full(ck, doc, fn):
    w = ck.world(doc)
    mu = w.machup()
    aero, ctl = w.aero(), w.ctl()
    o = w.do(mu, 'distributions', aero, ctl)
    wd = w.dict_items(w.I.get_item(o.val, num(0)))
    s = w.do(mu, 'solve', aero, ctl)
    ref = w.call(w.specfn('wing', 'wings_alone'), skel.build(w.I, doc), aero, ctl)
    q = w.dict_items(w.I.get_item(ref.val, num(1)))
    fn(ck, w, dist=wd, total=w.dict_items(s.val), q=q)
    m = model(w)
    r = w.do(m, 'solve', string('linear'), aero, ctl)
    fn(ck, w, parts=w.dict_items(r.val), q=q)


def model(w):
    """the lifting-line model on its own"""
    ap = w.call(w.attr('machup', 'Airplane'), inputfile=atom('infile', 'str'))
    return w.call(w.attr('machup', 'LLModel'), ap.val).val


def maybe(ck, doc, fn):
    w = ck.world(doc)
    m = model(w)
    aero, ctl = w.aero(True), w.ctl(True)
    r = w.do(m, 'solve', string('linear'), aero, ctl)
    ref = w.call(w.specfn('wing', 'wings_alone'), skel.build(w.I, doc), aero, ctl)
    fn(ck, w, parts=w.dict_items(r.val), q=w.dict_items(w.I.get_item(ref.val, num(1))))


def local(ck, doc, fn, vmag):
    w = ck.world(doc)
    m = model(w)
    n = None
    g = w.call(w.specfn('wing', 'sections'), skel.build(w.I, doc))
    cp = w.dict_items(g.val)['cp'][1]
    sh, _ = w.I.arr(cp)
    la = w.I.new_arr((sh[0], num(4)), raw('get', atom('local_state', 'arr'), ir.iv(0), ir.iv(1)))
    keys = ('roll_rate', 'yaw_rate') + (('V_mag', 'alpha', 'beta') if vmag else ())
    aero = w.state('aero', keys, vals=None)
    w.I.set_item(aero, string('local_state'), la)
    ctl = w.ctl()
    r = w.do(m, 'solve', string('linear'), aero, ctl)
    ref = w.call(w.specfn('wing', 'wings_local'), skel.build(w.I, doc), aero, ctl, la)
    fn(ck, w, parts=w.dict_items(r.val), q=w.dict_items(w.I.get_item(ref.val, num(1))))


def nostate(ck, doc, fn):
    w = ck.world(doc)
    m = model(w)
    ctl = w.ctl()
    r = w.do(m, 'solve', string('linear'), control_state=ctl)
    ref = w.call(w.specfn('wing', 'wings_default'), skel.build(w.I, doc), ctl)
    fn(ck, w, parts=w.dict_items(r.val), q=w.dict_items(w.I.get_item(ref.val, num(1))))
