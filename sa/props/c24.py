"""Undefined values.  Every public operation is analysed for every kind of
aircraft and every way of giving its arguments, on a fresh object and after
other operations.  Storage that nothing has assigned is a marked value; for
each reported number the condition is derived under which it needs such a
value, and shown to be unsatisfiable.  Unbound names and missing attributes
are exits of the analysis and must be impossible."""
from .common import *
from . import modular as M
from . import propcmp as P
from . import wingcmp as W
from .c05 import files
from .c19 import split, LEAD, MODES
from .. import defined
from ..rvn import RVN
from ..heap import conj
import os

RULE = 'no result needs an element that nothing has assigned'
BOUND = 'every name and attribute is bound before it is used'
NAMES = ('UnboundLocalError', 'NameError', 'AttributeError')
SEARCH = ('find_aero_center', 'stall_onset', 'stall_airspeed', 'target_lift', 'pitch_trim', 'derivatives', 'stability_derivatives', 'damping_derivatives',
          'control_derivatives')
KEYS = ('J', 'rot_per_sec', 'brake_power', 'electric_throttle', None)


def check(ck):
    one = skel.plane(skel.W1(), [skel.prop('p1', motor=False)])
    for name, wings in wing_skeletons(ck):
        for mode in ('full', 'maybe', 'none'):
            for op in ('solve', 'distributions'):
                ck.part('%s, %s, %s states' % (name, op, mode), direct, ck, skel.plane(wings, []), op, mode, None)
        ck.part(name + ', prescribed local flow', local, ck, skel.plane(wings, []))
    for name, kw in P.KINDS:
        doc = skel.plane([], [skel.prop('p1', **kw)])
        for op in ('solve', 'distributions'):
            ck.part('propeller %s, %s' % (name, op), direct, ck, doc, op, 'full', 'J')
        ck.part('slipstream, ' + name, stream, ck, doc)
    for key in KEYS:
        for mode in ('full', 'maybe', 'none'):
            ck.part('propeller setting %s, %s states' % (key, mode), direct, ck, skel.plane([], [skel.prop('p1')]), 'distributions', mode, key)
    two = skel.plane(skel.Wleft()[:1], [skel.prop('p1', motor=False), skel.prop('p2', motor=False, rot='CW')])
    for label, doc in (('one propeller', one), ('two propellers', two)):
        for op in ('solve', 'distributions'):
            ck.part('wing and %s, %s' % (label, op), direct, ck, doc, op, 'maybe', 'J')
    for op in SEARCH:
        for mode in MODES:
            M.part(ck, '%s, %s states' % (op, mode), one, search, op, mode)
    ck.part('export', direct, ck, one, 'create_stl', None, None)
    for first in ('solve', 'distributions', 'create_stl'):
        for op in ('solve', 'distributions', 'create_stl'):
            ck.part('%s after %s' % (op, first), direct, ck, one, op, 'maybe', 'J', first)
    for op in SEARCH:
        M.part(ck, '%s after distributions' % op, one, search, op, 'maybe', 'distributions')


def argsof(w, op, mode, key):
    return dict(filename=string('run.stl')) if op == 'create_stl' else split(w, mode, key)


def direct(ck, doc, op, mode, key, first=None):
    w = ck.world(doc)
    mu = w.machup()
    if first:
        w.do(mu, first, **argsof(w, first, 'full', key))
    judge(ck, w, w.do(mu, op, **argsof(w, op, mode, key)))


def search(ck, w, mu, op, mode, first=None):
    if op == 'stall_airspeed':
        w.I.summaries['MachUp.stall_onset'] = M.onset_summary
    if first:
        s, w.I.summaries = w.I.summaries, {}
        w.do(mu, first, **split(w, 'full'))
        w.I.summaries = s
    kw = split(w, mode)
    judge(ck, w, w.do(mu, op, *[atom('target%d' % k) for k in range(LEAD.get(op, 0))], **kw))


def local(ck, doc):
    w = ck.world(doc)
    m = W.model(w)
    g = w.call(w.specfn('wing', 'sections'), skel.build(w.I, doc))
    sh, _ = w.I.arr(w.dict_items(g.val)['cp'][1])
    for keys in (AERO, ('roll_rate', 'yaw_rate')):
        aero = w.state('aero', keys)
        w.I.set_item(aero, string('local_state'), w.I.new_arr((sh[0], num(4)), raw('get', atom('local_state', 'arr'), ir.iv(0), ir.iv(1))))
        judge(ck, w, w.do(m, 'solve', string('linear'), aero, w.ctl()))
    judge(ck, w, w.do(m, 'solve', string('linear')))


def stream(ck, doc):
    w = ck.world(doc)
    s = P.solver(w, P.points(w, 'p1'))
    judge(ck, w, w.do(s, 'solve', w.aero(True), w.pstate()))


def values(w, v, pre=''):
    if v is None:
        return
    if type(v) is tuple:
        for i, x in enumerate(v):
            yield from values(w, x, '%s[%d]' % (pre, i))
        return
    d = w.dict_items(v)
    if d is not None:
        for k, (p, x) in d.items():
            yield from values(w, x, '%s[%s]' % (pre, k))
        return
    if type(v) is Ref and w.I.obj(v).kind == 'list' and 'items' in w.I.obj(v).f and 'li' not in w.I.obj(v).f:
        for i, (p, x) in enumerate(w.I.obj(v).f['items']):
            yield from values(w, x, '%s[%d]' % (pre, i))
        return
    yield pre or 'value', w.freeze(v)


def judge(ck, w, o):
    base = os.path.join(w.root, 'machup') + os.sep
    n = 0
    for e, s in o.raises:
        if e.implicit and e.name in NAMES and e.loc and str(e.loc[0]).startswith(base):
            n += 1
            c = conj(s.pc)
            if not c.flags & ir.F_UNK and ck.possible(c):
                ck.fail('%s in %s' % (e.name, e.loc[2] if len(e.loc) > 2 else ''), BOUND, e.loc, detail=repr(e.args)[:200])
    ck.ok('names and attributes')
    if o.dead:
        return
    out = list(values(w, o.val))
    for k, v in files(w).items():
        if type(v) is Node:
            out.append(('file %s' % (k if type(k) is str else ir.show(k) if type(k) is Node else '',), v))
    for k, v in out:
        if type(v) is Node:
            element(ck, k, v)


def element(ck, k, v):
    if not v.flags & ir.F_UNINIT:
        return ck.ok(k, 'no undefined element in the graph')
    if ck.violations:
        return
    ck.count('guarded undefined elements')
    at = []
    if defined.guarded(v, ck.G, at):
        return ck.ok(k, 'each choice excludes it')
    F, at = at[0], at[1:]
    if not at:
        return ck.fail(k, RULE, v.loc, None, detail='%s is an element that nothing has assigned' % k)
    if defined.demands(v) is FALSE:
        return ck.ok(k, 'guards exclude it')
    for n, f in at:
        t = defined.tie(ck.V, F, f)
        if t is not None:
            return ck.fail(k, RULE, n.loc, None, detail='%s is computed from an element that nothing has assigned when %s = %s' %
                           (k, ir.show(t[0], 4)[:200], ir.show(t[1], 4)[:200]))
    if defined.depth(v) > 2:
        return ck.undec(k, 'nested iterations are not sampled')
    # sample points: the value with two different contents of the storage
    if depends(ck, v):
        return ck.fail(k, RULE, at[0][0].loc, None, detail='%s is computed from an element that nothing has assigned' % k)
    ck.ok(k, 'no sample point needs it')


def depends(ck, v):
    """two interpretations that differ in the content of unassigned storage only"""
    if not hasattr(ck, 'pair'):
        ck.pair = [RVN(ck.G.seed, ck.lanes, skel.ranges, skel.wide) for _ in (0, 1)]
        for x, I in zip((ir.num('0.07'), ir.num('0.31')), ck.pair):
            I.overrides[ir.UNINIT] = I.ev(x, {})
    x, y = [(I.scan(v), I.ev(v, {}))[1] for I in ck.pair]
    return not ((x == y) | ((x != x) & (y != y))).all()
