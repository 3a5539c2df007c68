"""Searches (target lift, pitch trim, stall airspeed).  solve (and, for the
stall airspeed, stall_onset) is an uninterpreted function of its complete
state.  First the value graph of every search is compared with the secant and
Newton iterations of spec/analysis.py: result, condition of returning it, and
conditions of the error report and of the exception.  A search that is not
that iteration is then judged by its guard: on every exit that returns a
number the loads at the returned state, all other entries being the caller's,
must meet the target within the tolerance the caller asked for."""
import numpy as np
from .common import *
from . import modular as M
from ..heap import Phi

RULE = 'a returned search result meets its target within the requested tolerance'
KINDS = ('target_lift', 'pitch_trim', 'stall_airspeed')


def check(ck):
    full = skel.plane(skel.W1(), [skel.prop('p1', motor=False)])
    for k in KINDS:
        for mode, rep, err in (('full', False, True), ('full', True, True), ('full', False, False), ('maybe', False, True), ('none', False, True),
                               ('control only', False, True), ('flight only', True, True)):
            M.part(ck, '%s, %s states%s%s' % (k, mode, ', report file' if rep else '', '' if err else ', default tolerance'), full, search, k, mode, rep, err)


def states(w, mode):
    if mode == 'none':
        return NONE, NONE, NONE
    if mode == 'control only':
        return NONE, w.ctl(), w.pstate('J')
    if mode == 'flight only':
        return w.aero(), NONE, w.pstate('J')
    return w.aero(mode == 'maybe'), w.ctl(mode == 'maybe'), w.pstate('J') if mode == 'full' else NONE


def search(ck, w, mu, kind, mode, report, err):
    I = w.I
    if kind == 'stall_airspeed':
        I.summaries['MachUp.stall_onset'] = M.onset_summary
    T, m, e = atom('target.lift'), atom('target.moment'), atom('tol.error') if err else num('1e-9')
    a, c, p = states(w, mode)
    kw = dict(aero_state=a, control_state=c, prop_state=p)
    if err:
        kw['error'] = e
    if report:
        kw['filename'] = string('report.json')
    args = (T, m) if kind == 'pitch_trim' else (T,)
    got = w.do(mu, kind, *args, **kw)
    a, c, p = states(w, mode)
    want = w.call(w.specfn('analysis', kind), mu, *(args + (a, c, p, e, TRUE if report else FALSE)))
    g, x = w.dict_items(got.val), w.dict_items(want.val)
    if g is None:
        ck.fail('result', 'the search returns its documented dictionary')
        return
    t = M.Trial(ck)
    ck.same('exception', got.raise_cond(), want.raise_cond(), RULE)
    for k in x:
        if k not in g:
            ck.fail('result[%s]' % k, RULE, detail='missing')
            return
        ck.same('returned when: ' + k, g[k][0], x[k][0], RULE)
        ck.same(k, w.freeze(g[k][1]), w.freeze(x[k][1]), RULE, None if x[k][0] is TRUE else x[k][0])
    if t.bad():
        guard(ck, w, mu, kind, mode, g, got, T, m, e, t)


def guard(ck, w, mu, kind, mode, g, got, T, m, e, t):
    """loads at the returned state against the targets"""
    a, c, p = states(w, mode)
    if a is NONE:
        a = w.state('d', (), vals={})
        for k, v in M.DEF.items():
            w.I.set_item(a, string(k), v)
    if c is NONE:
        c = w.ctl()
        for k in CTL:
            w.I.set_item(c, string(k), num(0))
    keys = {'target_lift': ('alpha',), 'pitch_trim': ('alpha', 'elevator'), 'stall_airspeed': ('airspeed',)}[kind]
    pres, vals = [], {}
    for k in keys:
        if k not in g:
            return
        pres.append(g[k][0])
        vals[k] = w.freeze(g[k][1])
    entry = {'alpha': (a, 'alpha'), 'elevator': (c, 'elevator'), 'airspeed': (a, 'V_mag')}
    ok = and_(not_(got.raise_cond()), *pres) if len(pres) == 1 else and_(not_(got.raise_cond()), and_(*pres))

    def at(k=None, h=None):
        st = w.I.st.fork()
        for q in keys:
            d, key = entry[q]
            w.I.set_item(d, string(key), vals[q] if q != k else ir.add(vals[q], h))
        o = w.do(mu, 'stall_onset' if kind == 'stall_airspeed' else 'solve', a, c, p)
        it = w.dict_items(o.val)
        w.I.st = st
        return [it['lift' if kind == 'stall_airspeed' else 'FL'][1]] + ([it['MY'][1]] if kind == 'pitch_trim' else [])
    r = at()
    h = num('1e-3')
    slopes = [at(k, h) for k in keys]
    V = ck.V
    nodes = r + [x for s in slopes for x in s] + [ok, T, m, e]
    V.scan(*nodes)
    ev = lambda n: V.ev(n, {})
    o = ev(ok) != 0
    bad = np.zeros(len(o), dtype=bool)
    seen = o & np.isfinite(ev(r[0])) & (ev(e) > 0)
    for i, (load, target) in enumerate(zip(r, (T, m))):
        res = np.abs(ev(load) - ev(target))
        if kind == 'pitch_trim':
            lim = ev(e)
        else:
            s = np.abs(ev(slopes[0][i]) - ev(load)) / 1e-3
            lim = 3 * (s + .1) * ev(e)
        bad |= seen & (res > lim + 1e-12 * (1 + np.abs(ev(load))))
    n = int(seen.sum())
    if bad.any():
        return           # the disagreement stands
    t.undo()
    if n < 8:
        ck.undec('guard', 'no returning run in the sample')
    else:
        ck.ok('guard of returned state', 'target met at %d returning sample runs' % n)
