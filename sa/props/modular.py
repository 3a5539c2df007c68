"""Analyses built on solve are decided modularly: MachUp.solve is replaced by
an uninterpreted function of its complete state (defaults filled in, so that
an omitted entry and its documented default are the same argument)."""
from .common import *
from .. import skel
from ..heap import Phi
from ..interp import Dead

LOADS = ('FL', 'FD', 'FS', 'FX', 'FY', 'FZ', 'MX', 'MY', 'MZ')
DEF = {'V_mag': num(10), 'rho': num('0.0023769')}
RULE_CALL = 'loads come from solve'


def summarise(w):
    I = w.I
    I.load_log = []
    I.summaries['MachUp.solve'] = solve_summary
    I.summaries['LLModel._find_stall_location'] = stall_summary


def stall_summary(I, f, args, kw):
    n = getattr(I, 'last_load', None)
    if n is None:
        return NotImplemented
    I.stall_hits = getattr(I, 'stall_hits', 0) + 1
    return Phi(raw('truth', raw('f:in', string('stalled'), *n)), I.new_dict({k: (TRUE, raw('f:load:' + k, *n)) for k in ('stalled_wing', 'span_location')}), NONE)


def given(I, v):
    """(truthiness, dict fields) of a state argument"""
    if type(v) is Ref and I.obj(v).kind == 'dict':
        f = I.obj(v).f
        t = FALSE
        for k in f:
            t = or_(t, f[k][0])
        return t, f
    return FALSE, {}


def pick(t, f, key, missing, default):
    p, x = f.get(key, (FALSE, None))
    r = missing
    if p is not FALSE:
        r = x if p is TRUE else ir.ite(p, x, missing)
    return r if t is TRUE else (default if t is FALSE else ir.ite(t, r, default))


def solve_summary(I, f, args, kw):
    env = I.bind_args(f, args, kw)
    fn = env.get('filename', NONE)
    if fn is not NONE:
        return NotImplemented
    for k in ('aero_state', 'control_state', 'prop_state'):
        v = env.get(k)
        if type(v) is Phi:
            def alt(x, k=k):
                e = dict(env)
                e[k] = x
                e.pop('self')
                return solve_summary(I, f, [env['self']], e)
            return I.phi(v, alt)
    t, a = given(I, env['aero_state'])
    for k in ('V_mag', 'rho'):
        p = a.get(k, (FALSE, None))[0]
        I.maybe_throw_explicit(and_(t, not_(p)), 'RuntimeError')
    # the truthiness of the state may be settled by what was just assumed
    nodes = []
    for k in AERO:
        d = DEF.get(k, num(0))
        v = pick(t, a, k, d if k not in DEF else a.get(k, (0, d))[1], d)
        nodes.append(I.need_num(v) if type(v) is not Node else v)
    t, c = given(I, env['control_state'])
    for k in CTL:
        v = pick(t, c, k, num(0), num(0))
        nodes.append(I.need_num(v) if type(v) is not Node else v)
    t, p = given(I, env['prop_state'])
    if t is FALSE:
        nodes.append(raw('dict', string('J'), TRUE, num('0.5')))
    else:
        nodes.append(I.freeze(env['prop_state']))
    for k in sorted(a):
        if k not in AERO and a[k][0] is not FALSE:
            nodes += [string(k), a[k][0], I.freeze(a[k][1])]
    I.load_log.append((tuple(nodes), ir.LOC[0]))
    I.last_load = tuple(nodes)
    return I.new_dict({k: (TRUE, raw('f:load:' + k, *nodes)) for k in LOADS})


def onset_summary(I, f, args, kw):
    """stall onset as a function of the state without its angle of attack"""
    env = I.bind_args(f, args, kw)
    if env.get('filename', NONE) is not NONE:
        return NotImplemented
    r = solve_summary(I, f, args, kw)
    if r is NotImplemented:
        return r
    n = I.last_load
    n = n[:2] + n[3:]

    def out(_):
        return I.new_dict({k: (TRUE, raw('f:onset:' + k, *n)) for k in ('stalled_wing', 'span_location', 'alpha', 'lift')})
    return out(r)


def bypassed(w, before):
    new = w.I.funcs_analysed - before
    return any(m.startswith('machup') and q.endswith('.solve') and not q.startswith('MachUp.') for m, q in new)


class Trial(object):
    def __init__(self, ck):
        self.ck = ck
        self.n = (len(ck.obs), len(ck.violations), len(ck.known_hits))

    def bad(self):
        return len(self.ck.violations) > self.n[1] or any(o[2] == 'undecided' for o in self.ck.obs[self.n[0]:])

    def undo(self):
        ck = self.ck
        del ck.obs[self.n[0]:]
        del ck.violations[self.n[1]:]
        del ck.known_hits[self.n[2]:]


def part(ck, name, doc, fn, *a, **kw):
    """fn(ck, w, mu, *a) with solve summarised; if the analysis reaches the
    solvers by another way and does not agree, both sides are expanded"""
    full = kw.get('full', doc)

    def go():
        t = Trial(ck)
        w = ck.world(doc)
        mu = w.machup()
        summarise(w)
        before = set(w.I.funcs_analysed)
        try:
            fn(ck, w, mu, *a)
        except AnchorLost:
            raise
        except Exception:
            if not bypassed(w, before):
                raise
            ck.undec('summary', 'solvers reached directly')
        if t.bad() and bypassed(w, before):
            t.undo()
            w = ck.world(full)
            fn(ck, w, w.machup(), *a)
    ck.part(name, go)
