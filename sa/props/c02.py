"""Independence of the history.  An aircraft is built, then a call (the probe)
is analysed twice on the abstract heap: right after construction, and from the
state left by an earlier operation with its own unknown arguments - on every
normal exit and on every exceptional exit of that operation, on the same or on
another aircraft with the same names.  The two results are compared by value
numbering.  The analyses built on solve are shown to leave no object of the
aircraft changed beyond what solve changes (otherwise every analysis is
compared as probe after them); their own results are compared after a solve."""
from .common import *
from . import modular as M
from .history import *

RULE = 'the result is a function of the aircraft and of the arguments of the call'
EFFECT = 'an analysis leaves the aircraft as it was'
PURE = ('find_aero_center', 'stall_onset', 'stall_airspeed', 'derivatives', 'stability_derivatives', 'damping_derivatives', 'control_derivatives',
        'target_lift', 'pitch_trim')
LEAD = ('target_lift', 'pitch_trim', 'stall_airspeed')


def check(ck):
    both = skel.plane(skel.Wleft()[:1], [skel.prop('p1'), skel.prop('p2', motor=False, rot='CW')])
    one = skel.plane(skel.W1(), [skel.prop('p1', motor=False)])
    wings = skel.plane(skel.Wleft(), [])
    props = skel.plane([], [skel.prop('p1')])
    FULL = (('solve', 'full', 'rot_per_sec'), ('solve', 'full', 'J'), ('distributions', 'maybe', 'J'))
    ck.part('wings', pairs, ck, wings, FULL + (('create_stl', None, None),), (('solve', 'maybe', None), ('distributions', 'none', None)))
    ck.part('propeller', pairs, ck, props, FULL + (('solve', 'full', 'brake_power'), ('solve', 'maybe', 'electric_throttle'), ('create_stl', None, None)),
            (('solve', 'maybe', 'J'), ('distributions', 'maybe', None), ('solve', 'full', 'brake_power')))
    ck.part('export', pairs, ck, skel.plane([], [skel.prop('p1', motor=False)]), (('solve', 'full', 'rot_per_sec'), ('create_stl', None, None)),
            (('create_stl', None, None),))
    ck.part('whole aircraft', pairs, ck, one, FULL + (('create_stl', None, None),), (('solve', 'maybe', None), ('distributions', 'maybe', 'rot_per_sec')))
    ck.part('two propellers', pairs, ck, both, (('solve', 'full', 'nested'), ('solve', 'maybe', 'rot_per_sec')), (('solve', 'maybe', None), ('solve', 'full', 'J')))
    ck.part('wing model on its own', models, ck, wings)
    ck.part('propeller solver on its own', solvers, ck, props)
    ck.part('after an error', errors, ck, one, (('solve', 'maybe', None), ('distributions', 'maybe', 'J')))
    ck.part('another aircraft', another, ck, one)
    for op in PURE:
        M.part(ck, 'effects of ' + op, one, effects, op)
    ck.part('analyses after solve', analyses, ck, one)


def outcome(w, obj, probe, tag):
    """run a probe from the current point: (value graph, files, outcome)"""
    op, mode, key = probe
    if op == 'create_stl':
        o = w.do(obj, op, filename=string(tag + '.stl'))
    else:
        o = w.do(obj, op, **args(w, tag, mode, key))
    return o


def result(ck, w, obj, probe, st, tag='b'):
    o, s = at(w, st, lambda: outcome(w, obj, probe, tag))
    val = None
    if not o.dead:
        val = w.in_state(s, lambda: (o.val, w.freeze(o.val), dict(w.I.obj(w.I.fs).f)))
    return o, s, val


def agree(ck, w, name, got, want, gs, ws, under=None):
    """values (and files of the probe) of two runs"""
    a, b = got[2], want[2]
    if a is None or b is None:
        if (a is None) != (b is None):
            ck.fail(name, RULE, detail='one run has no normal exit')
        return
    ck.count('call pairs')
    compare(ck, w, name, a[1], b[1], under)
    for k in b[2]:
        if str(k).startswith('b.') or "'b." in str(k):
            x = a[2].get(k)
            ck.same('%s file %s' % (name, k), w.freeze(x) if x is not None else NONE, w.freeze(b[2][k]), RULE, under)
    for e, s in got[0].raises:
        pass
    ck.same(name + ' raises', got[0].raise_cond(), want[0].raise_cond(), RULE, under)
    bad = [n for n in ir.walk(a[1], set()) if n.op == 'atom' and str(n.args[0]).startswith('nondet:')]
    if bad:
        ck.fail(name + ' is determined', RULE, bad[0].loc, a[1], detail='depends on ' + str(bad[0].args[0]))


def compare(ck, w, name, a, b, under):
    """structural descent through frozen containers, so that one entry is one
    obligation"""
    if a is b:
        ck.ok(name, 'identical')
        return
    if a.op == b.op and a.op in ('dict', 'tuple', 'list') and len(a.args) == len(b.args):
        for i, (x, y) in enumerate(zip(a.args, b.args)):
            if isinstance(x, Node) and isinstance(y, Node):
                if x is not y:
                    compare(ck, w, '%s[%s]' % (name, ir.show(a.args[i - 2], 1)[:30] if a.op == 'dict' and i >= 2 else i), x, y, under)
            elif x != y:
                ck.fail(name, RULE, a.loc, a)
        return
    ck.same(name, a, b, RULE, under)


def pairs(ck, doc, first, probes):
    w = ck.world(doc)
    mu = w.machup()
    s0 = w.I.st.fork()
    base = {}
    for p in probes:
        base[p] = result(ck, w, mu, p, s0)
    for f in first:
        o, s1 = at(w, s0, lambda: outcome(w, mu, f, 'a'))
        if o.dead:
            continue
        ck.count('objects written by a first call', len(moved(s0, s1)))
        for p in probes:
            ck.part('%s after %s' % (text(p), text(f)), lambda: agree(ck, w, p[0], result(ck, w, mu, p, s1), base[p], s1, s0, pcd(s1, s0)))
            if ck.thorough():
                for g in first:
                    if g is f:
                        continue
                    o2, s2 = at(w, s1, lambda: outcome(w, mu, g, 'c'))
                    ck.part('%s after %s, %s' % (text(p), text(f), text(g)),
                            lambda: agree(ck, w, p[0], result(ck, w, mu, p, s2), base[p], s2, s0, pcd(s2, s0)))


def series(ck, w, first, probes):
    """first, probes: [(name, fn)] run from the current point"""
    s0 = w.I.st.fork()

    def res(fn, st):
        o, s = at(w, st, fn)
        return o, s, None if o.dead else w.in_state(s, lambda: (o.val, w.freeze(o.val), {}))
    base = {n: res(fn, s0) for n, fn in probes}
    for fname, f in first:
        o, s1 = at(w, s0, f)
        for n, fn in probes:
            ck.part('%s after %s' % (n, fname), lambda: agree(ck, w, n, res(fn, s1), base[n], s1, s0, pcd(s1, s0)))


def models(ck, doc):
    w = ck.world(doc)
    I = w.I
    ap = w.call(w.attr('machup', 'Airplane'), inputfile=atom('infile', 'str')).val
    ll = w.call(w.attr('machup', 'LLModel'), ap).val
    n = I.arr(w.do(I.get_attr(ll, '_grid'), 'get_control_point_pos').val)[0][0]

    def local(tag, may):
        a = w.state(tag + '.aero', () if may else ('V_mag', 'rho'), AERO if may else AERO[2:])
        I.set_item(a, string('local_state'), I.new_arr((n, num(4)), raw('get', atom(tag + '.local', 'arr'), ir.iv(0), ir.iv(1))))
        return a
    run = lambda a, c: w.do(ll, 'solve', string('linear'), a(), c())
    L = lambda tag: [('given flow', lambda: run(lambda: local(tag, True), lambda: w.ctl(True, tag + '.ctl'))),
                     ('uniform flow', lambda: run(lambda: w.aero(True, tag + '.aero'), lambda: w.ctl(True, tag + '.ctl'))),
                     ('no controls', lambda: run(lambda: w.aero(True, tag + '.aero'), lambda: NONE)),
                     ('no state', lambda: run(lambda: NONE, lambda: NONE))]
    series(ck, w, L('a'), L('b'))


def solvers(ck, doc):
    from . import propcmp as P
    w = ck.world(doc)
    s = P.solver(w, P.points(w, 'p1'))
    run = lambda a, p: w.do(s, 'solve', a, p)
    L = lambda tag: [('given setting', lambda: run(w.aero(True, tag + '.aero'), w.pstate('rot_per_sec', tag + '.ps'))),
                     ('given power', lambda: run(w.aero(True, tag + '.aero'), w.pstate('brake_power', tag + '.ps'))),
                     ('no setting', lambda: run(w.aero(True, tag + '.aero'), NONE)),
                     ('no state', lambda: run(NONE, NONE))]
    series(ck, w, L('a'), L('b'))


def pcd(s1, s0):
    """what is known at s1 beyond s0"""
    c = conj([x for x in s1.pc if x not in s0.pc])
    return None if c is TRUE else c


def text(p):
    return '%s%s%s' % (p[0], ' (%s)' % p[1] if p[1] else '', ' ' + p[2] if p[2] else '')


def errors(ck, doc, probes):
    """operations that raise half-way"""
    w = ck.world(doc)
    mu = w.machup()
    s0 = w.I.st.fork()
    base = {p: result(ck, w, mu, p, s0) for p in probes}
    w.valid = False
    I = w.I
    bad = {'missing speed': lambda: dict(aero_state=w.state('a.aero', ('rho', 'alpha'), AERO[3:]), control_state=w.ctl(False, 'a.ctl'), prop_state=w.pstate('J', 'a.ps')),
           'missing density': lambda: dict(aero_state=w.state('a.aero', ('V_mag', 'beta')), control_state=w.ctl(True, 'a.ctl'), prop_state=w.pstate('J', 'a.ps')),
           'unusable setting': lambda: dict(args(w, 'a', 'full', None), prop_state=w.state('a.ps', ('thrust',))),
           'throttle without motor': lambda: args(w, 'a', 'full', 'electric_throttle'),
           'zero advance ratio': lambda: dict(args(w, 'a', 'full', None), prop_state=w.state('a.ps', ('J',), vals={'J': num(0)}))}
    for name, mkargs in bad.items():
        for op in ('solve', 'distributions'):
            o, _ = at(w, s0, lambda: w.do(mu, op, **mkargs()))
            seen = []
            for e, st in o.raises:
                ch = moved(s0, st)
                if not ch:
                    ck.ok('%s, %s: %s leaves no trace' % (op, name, e.name), 'no object changed')
                    continue
                key = tuple((k, st.heap.get(k)) for k in ch)
                if any(len(key) == len(k) and all(x[0] == y[0] and x[1] is y[1] for x, y in zip(key, k)) for k in seen):
                    continue
                seen.append(key)
                w.valid = True
                for p in probes:
                    ck.part('%s after %s with %s' % (text(p), op, name), lambda: agree(ck, w, p[0], result(ck, w, mu, p, st), base[p], st, s0, pcd(st, s0)))
                w.valid = False


def another(ck, doc):
    """a second aircraft that uses the same names"""
    w = ck.world(doc)
    mu = w.machup()
    s0 = w.I.st.fork()
    probes = (('solve', 'maybe', None), ('distributions', 'maybe', 'J'))
    base = {p: result(ck, w, mu, p, s0) for p in probes}
    mu2, s1 = at(w, s0, lambda: w.machup(other(doc)))
    stages = [('construction', s1)]
    for f in (('solve', 'full', 'rot_per_sec'), ('distributions', 'full', 'J')):
        o, s2 = at(w, s1, lambda: outcome(w, mu2, f, 'a'))
        stages.append((text(f), s2))
    for n, st in stages:
        for p in probes:
            ck.part('%s after %s of another aircraft' % (text(p), n), lambda: agree(ck, w, p[0], result(ck, w, mu, p, st), base[p], st, s0, pcd(st, s0)))
    # and the other way round: an aircraft built after another one was used
    f = ('solve', 'full', 'rot_per_sec')
    w2 = ck.world(other(doc))
    m2 = w2.machup()
    outcome(w2, m2, f, 'a')
    m = w2.machup(doc)
    s = w2.I.st
    for p in probes:
        r = result(ck, w2, m, p, s)
        ck.part('%s of an aircraft built later' % text(p), lambda: agree(ck, w, p[0], r, base[p], s, s0, pcd(s, s0)))


def analysis_args(w, op, tag, mode='maybe'):
    lead = (atom('target.lift'),) if op in LEAD else ()
    return lead, args(w, tag, mode, 'J')


def effects(ck, w, mu, op):
    """objects of the aircraft written by an analysis apart from solve"""
    if op == 'stall_airspeed':
        w.I.summaries['MachUp.stall_onset'] = M.onset_summary
    s0 = w.I.st.fork()
    for mode in ('full', 'maybe', 'none'):
        lead, kw = analysis_args(w, op, 'a', mode)
        pre = w.I.st.fork()
        o = w.do(mu, op, *lead, **kw)
        ends = [] if o.dead else [('return', w.I.st)]
        ends += [(e.name, st) for e, st in o.raises]
        for n, st in ends:
            ch = [k for k in moved(s0, st) if not same_obj(w, s0, st, k)]
            if not ch:
                ck.ok('%s, %s states, on %s' % (op, mode, n), 'no object changed')
                continue
            for p in PURE:
                probe_analysis(ck, w, mu, p, st, s0, '%s after %s (%s)' % (p, op, n))
            if n == 'return':
                saved = w.I.summaries.pop('MachUp.solve', None)
                for p in (('solve', 'maybe', None), ('distributions', 'maybe', 'J')):
                    ck.part('%s after %s' % (text(p), op), lambda: agree(ck, w, p[0], result(ck, w, mu, p, st), result(ck, w, mu, p, s0), st, s0, pcd(st, s0)))
                if saved:
                    w.I.summaries['MachUp.solve'] = saved
        w.I.st = s0.fork()


def same_obj(w, a, b, k):
    x, y = a.heap.get(k), b.heap.get(k)
    if x is y:
        return True
    if x is None or y is None or x.kind != y.kind or x.x != y.x or x.f.keys() != y.f.keys():
        return False
    from ..heap import same
    return all(same(x.f[i], y.f[i]) for i in x.f)


def probe_analysis(ck, w, mu, op, st, s0, name):
    if op == 'stall_airspeed':
        w.I.summaries['MachUp.stall_onset'] = M.onset_summary
    else:
        w.I.summaries.pop('MachUp.stall_onset', None)

    def go():
        lead, kw = analysis_args(w, op, 'b')
        return w.do(mu, op, *lead, **kw)
    out = []
    for s in (st, s0):
        w.I.last_load = None
        o, e = at(w, s, go)
        out.append((o, e, None if o.dead else w.in_state(e, lambda: (o.val, w.freeze(o.val), {}))))
    ck.part(name, lambda: agree(ck, w, op, out[0], out[1], st, s0, pcd(st, s0)))


def analyses(ck, doc):
    """what solve leaves behind must not show in an analysis"""
    w = ck.world(doc)
    mu = w.machup()
    s0 = w.I.st.fork()
    w.do(mu, 'distributions', **args(w, 'a', 'full', 'rot_per_sec'))
    s1 = w.I.st.fork()
    M.summarise(w)
    for p in PURE:
        probe_analysis(ck, w, mu, p, s1, s0, '%s after distributions' % p)
