"""Derivatives.  solve is an uninterpreted function of its complete state; the
dictionaries returned by stability_, damping_, control_derivatives and
derivatives are compared entry by entry with the normalised central
differences of spec/analysis.py, for every subset of optional state entries
and every way the reference lengths are given."""
from .common import *
from . import modular as M

RULE = 'derivative is the normalised central difference of the named load'
FNS = (('stability_derivatives', 'stability'), ('damping_derivatives', 'damping'), ('control_derivatives', 'control'))
KEYS = {'stability': ('a', 'b'), 'damping': ('pbar', 'qbar', 'rbar'), 'control': ('da', 'de', 'dr', 'df')}
NAMES = ('CL', 'CD', 'CS', 'CX', 'CY', 'CZ', 'Cl', 'Cm', 'Cn')


def check(ck):
    full = skel.plane(skel.W1(), [skel.prop('p1', motor=False)])
    w3 = skel.plane(skel.W3(), [])
    for fn, ref in FNS:
        M.part(ck, fn, full, single, fn, ref, 'full')
        M.part(ck, fn + ', optional entries', w3, single, fn, ref, 'maybe', full=skel.plane(skel.W1(), []))
        M.part(ck, fn + ', no states', w3, single, fn, ref, 'none', full=skel.plane(skel.W1(), []))
    for lat, lon in ((False, True), (True, False), (False, False)):
        doc = skel.plane(skel.W3(), [], lat=lat, lon=lon)
        for fn, ref in FNS[:2]:
            M.part(ck, '%s, %s lengths' % (fn, 'no' if not lat and not lon else 'no lateral' if not lat else 'no longitudinal'), doc, single, fn, ref, 'full')
    for mode in ('full', 'maybe', 'none'):
        M.part(ck, 'derivatives ' + mode, full if mode == 'full' else w3, combined, mode)


def states(w, mode):
    if mode == 'none':
        return NONE, NONE, NONE
    return w.aero(mode == 'maybe'), w.ctl(mode == 'maybe'), w.pstate('J') if mode == 'full' else NONE


def refs(w):
    doc = w.doc
    g = w.dict_items(w.call(w.specfn('wing', 'sections'), skel.build(w.I, doc)).val)
    S = g['main_area'][1]
    spans = w.I.new_list([skel.build(w.I, x['span']) for x in doc['wings'].values()])
    r = doc['reference']
    o = w.call(w.specfn('analysis', 'lengths'), S, spans, skel.build(w.I, r['longitudinal_length']), skel.build(w.I, r['lateral_length']))
    lon, lat = [w.I.get_item(o.val, num(k)) for k in (0, 1)]
    return S, lon, lat


def entries(ck, w, got, want, sfx):
    for s in sfx:
        for n in NAMES:
            k = n + '_' + s
            present(ck, got, k)
            ck.same(k, w.freeze(got[k][1]), w.freeze(want[k][1]), RULE)


def single(ck, w, mu, fn, ref, mode):
    a, c, p = states(w, mode)
    got = w.do(mu, fn, a, c, p)
    S, lon, lat = refs(w)
    a, c, p = states(w, mode)
    want = w.call(w.specfn('analysis', ref), mu, a, c, p, S, lon, lat)
    entries(ck, w, w.dict_items(got.val), w.dict_items(want.val), KEYS[ref])


def combined(ck, w, mu, mode):
    a, c, p = states(w, mode)
    d = w.dict_items(w.do(mu, 'derivatives', a, c, p).val)
    S, lon, lat = refs(w)
    for name, ref in (('stability_derivatives', 'stability'), ('damping_derivatives', 'damping'), ('control_derivatives', 'control')):
        a, c, p = states(w, mode)
        want = w.dict_items(w.call(w.specfn('analysis', ref), mu, a, c, p, S, lon, lat).val)
        present(ck, d, name)
        got = w.dict_items(d[name][1])
        entries(ck, w, got, want, KEYS[ref])
        if ref == 'stability':
            present(ck, got, 'static_margin')
            ck.same('static_margin', w.freeze(got['static_margin'][1]),
                    ir.neg(ir.div(w.freeze(want['Cm_a'][1]), w.freeze(want['CL_a'][1]))), 'static margin is minus the moment slope over the lift slope')
