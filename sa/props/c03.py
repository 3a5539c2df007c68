"""Ownership of results.  After an operation has returned, the value graph of
its result is recorded; then (a) further operations are analysed from that
point and the result is frozen again - a different graph means that a later
operation wrote into it; (b) every container reachable from the result is
overwritten with fresh unknowns, and operations analysed from there are
compared with the same operations from the untouched point - a difference
means that the aircraft reads what it handed out.  A container that both the
result and the aircraft hold is only a violation if one of the two happens."""
from .common import *
from . import modular as M
from .history import *
from .c02 import PURE, LEAD, agree, compare, text, pcd, analysis_args
from ..heap import SliceV

RULE = 'a returned result is not changed by later operations'
BACK = 'changing a returned result does not change later results'


def check(ck):
    both = skel.plane(skel.Wleft()[:1], [skel.prop('p1'), skel.prop('p2', motor=False, rot='CW')])
    one = skel.plane(skel.W1(), [skel.prop('p1', motor=False)])
    wings = skel.plane(skel.W3(), [])
    props = skel.plane([], [skel.prop('p1')])
    S, D, X = ('solve', 'full', 'rot_per_sec'), ('distributions', 'maybe', 'J'), ('create_stl', None, None)
    B = (('solve', 'maybe', 'J'), ('distributions', 'maybe', 'rot_per_sec'))
    ck.part('wings', aircraft, ck, wings, (S, D), B, B + (X,))
    ck.part('propellers', aircraft, ck, props, (S, D), B, B + (X,))
    ck.part('whole aircraft', aircraft, ck, one, (S, D), B, B)
    ck.part('two propellers', aircraft, ck, both, (S, D), B[:1], B)
    ck.part('wing model on its own', model, ck, wings)
    ck.part('propeller solver on its own', solver, ck, props)
    for op in PURE:
        M.part(ck, op, one, analysis, op)


def containers(w, v, seen, path='result'):
    """mutable objects reachable from a value: [(path, reference)]"""
    out = []
    if type(v) is tuple:
        for i, x in enumerate(v):
            out += containers(w, x, seen, '%s[%d]' % (path, i))
    elif type(v) is Phi:
        out += containers(w, v.a, seen, path) + containers(w, v.b, seen, path)
    elif type(v) is Ref and v.oid not in seen:
        seen.add(v.oid)
        o = w.I.obj(v)
        if o is None:
            return out
        if o.kind in ('arr', 'view', 'dict', 'list'):
            out.append((path, v))
        if o.kind == 'dict':
            for k, (p, x) in o.f.items():
                if p is not FALSE:
                    out += containers(w, x, seen, '%s[%s]' % (path, k))
        elif o.kind == 'list':
            for i, x in enumerate(o.f.get('items', ())):
                out += containers(w, x, seen, '%s[%d]' % (path, i))
        elif o.kind == 'inst':
            for k, x in o.f.items():
                out += containers(w, x, seen, '%s.%s' % (path, k))
    return out


def havoc(w, refs):
    I = w.I
    for n, (path, r) in enumerate(refs):
        o = I.obj(r)
        if o.kind in ('arr', 'view'):
            sh, _ = I.arr(r)
            a = I.new_arr(sh, raw('get', atom('havoc%d' % n, 'arr'), *[ir.iv(k) for k in range(len(sh))]))
            if sh:
                I.set_item(r, SliceV(NONE, NONE, NONE), a)
    for n, (path, r) in enumerate(refs):
        o = I.obj(r)
        if o.kind == 'dict':
            f = {}
            for k, (p, x) in o.f.items():
                f[k] = (p, atom('havoc%d.%s' % (n, k)))
            f['unexpected'] = (TRUE, atom('havoc%d.' % n))
            I.st.heap.set(r.oid, Obj('dict', f, o.x))
        elif o.kind == 'list':
            I.st.heap.set(r.oid, Obj('list', {'items': ()}))


def trial(ck, w, name, st, val, before, later, probes):
    """val: result reached at st; later: [(name, fn)] operations that must not
    touch it; probes: operations that must not see it"""
    for n, fn in later:
        o, s = at(w, st, fn)
        ends = ([] if o.dead else [s]) + [e[1] for e in o.raises]
        ck.count('call pairs')
        seen = []
        for e in ends:
            after = w.in_state(e, lambda: w.freeze(val))
            if after is before:
                continue
            if not any(after is x for x in seen):
                seen.append(after)
                compare_as(ck, w, '%s kept after %s' % (name, n), after, before, conj([x for x in e.pc if x not in st.pc]), RULE)
        if not seen:
            ck.ok('%s kept after %s' % (name, n), 'identical')
    refs = w.in_state(st, lambda: containers(w, val, set(), name))
    ck.count('containers overwritten', len(refs))

    def over():
        havoc(w, refs)
    _, hs = at(w, st, over)
    shared = held(w, st, refs)
    for n, fn in probes:
        a, b = run(w, hs, fn), run(w, st, fn)
        nm = '%s after changing %s' % (n, name)
        if a[2] is None or b[2] is None:
            if (a[2] is None) != (b[2] is None):
                ck.fail(nm, BACK, detail='one run has no normal exit')
            continue
        compare_as(ck, w, nm, a[2], b[2], None, BACK)
        ck.same(nm + ' raises', a[0].raise_cond(), b[0].raise_cond(), BACK)
    ck.count('containers shared with the aircraft', len(shared))


def held(w, st, refs):
    return [p for p, r in refs if st.heap.get(r.oid) is not None and st.heap.get(r.oid).kind == 'view']


def run(w, st, fn):
    o, s = at(w, st, fn)
    return o, s, None if o.dead else w.in_state(s, lambda: w.freeze(o.val))


def compare_as(ck, w, name, a, b, under, rule):
    if a is b:
        ck.ok(name, 'identical')
        return
    if a.op == b.op and a.op in ('dict', 'tuple', 'list') and len(a.args) == len(b.args):
        for i, (x, y) in enumerate(zip(a.args, b.args)):
            if isinstance(x, Node) and isinstance(y, Node):
                if x is not y:
                    compare_as(ck, w, '%s[%s]' % (name, ir.show(a.args[i - 2], 1)[:30] if a.op == 'dict' and i >= 2 else i), x, y, under, rule)
            elif x != y:
                ck.fail(name, rule, a.loc, a)
        return
    ck.same(name, a, b, rule, under)


def op(w, mu, probe, tag):
    o, mode, key = probe
    if o == 'create_stl':
        return lambda: w.do(mu, o, filename=string(tag + '.stl'))
    return lambda: w.do(mu, o, **args(w, tag, mode, key))


def aircraft(ck, doc, first, probes, later):
    w = ck.world(doc)
    mu = w.machup()
    s0 = w.I.st.fork()
    for f in first:
        o, s = at(w, s0, op(w, mu, f, 'a'))
        if o.dead:
            continue
        before = w.in_state(s, lambda: w.freeze(o.val))
        trial(ck, w, text(f), s, o.val, before, [(text(p), op(w, mu, p, 'b')) for p in later], [(text(p), op(w, mu, p, 'b')) for p in probes])


def model(ck, doc):
    w = ck.world(doc)
    ap = w.call(w.attr('machup', 'Airplane'), inputfile=atom('infile', 'str')).val
    ll = w.call(w.attr('machup', 'LLModel'), ap).val
    f = lambda tag: lambda: w.do(ll, 'solve', string('linear'), w.aero(True, tag + '.aero'), w.ctl(True, tag + '.ctl'))
    s0 = w.I.st.fork()
    o, s = at(w, s0, f('a'))
    trial(ck, w, 'solve', s, o.val, w.in_state(s, lambda: w.freeze(o.val)), [('solve', f('b'))], [('solve', f('b'))])


def solver(ck, doc):
    from . import propcmp as P
    w = ck.world(doc)
    s = P.solver(w, P.points(w, 'p1'))
    f = lambda tag, k: lambda: w.do(s, 'solve', w.aero(True, tag + '.aero'), w.pstate(k, tag + '.ps'))
    s0 = w.I.st.fork()
    o, s1 = at(w, s0, f('a', 'J'))
    trial(ck, w, 'solve', s1, o.val, w.in_state(s1, lambda: w.freeze(o.val)), [('solve', f('b', 'rot_per_sec'))], [('solve', f('b', 'rot_per_sec'))])


def analysis(ck, w, mu, name):
    if name == 'stall_airspeed':
        w.I.summaries['MachUp.stall_onset'] = M.onset_summary

    def f(tag):
        def go():
            w.I.last_load = None
            lead, kw = analysis_args(w, name, tag)
            return w.do(mu, name, *lead, **kw)
        return go
    s0 = w.I.st.fork()
    o, s = at(w, s0, f('a'))
    if o.dead:
        return
    trial(ck, w, name, s, o.val, w.in_state(s, lambda: w.freeze(o.val)), [(name, f('b'))], [(name, f('b'))])
