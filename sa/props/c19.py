"""Termination.  Every public operation is analysed for every kind of aircraft
and every way of giving its arguments.  Each loop met on the way that does not
run over a finite sequence is a recurrence: header state, next state, and the
condition under which an iteration leaves the loop (test, break, return,
raise).  It terminates when one of its variables moves by a constant step (or
factor) in every iteration and the leaving condition holds for all values of
the other variables once that variable has gone far enough.  A recursive call
with unchanged arguments that can be reached is a cycle.  Loops of functions
that a public operation may reach but the analysis did not enter are listed."""
import ast
import os
from .common import *
from . import modular as M
from . import propcmp as P
from .history import args as hargs
from .. import world as W
from ..heap import conj

RULE = 'every loop has a variable that forces its exit'
REC = 'a recursive call makes progress'
LEAD = {'target_lift': 1, 'pitch_trim': 2, 'stall_airspeed': 1}
SEARCH = ('find_aero_center', 'stall_onset', 'stall_airspeed', 'target_lift', 'pitch_trim', 'derivatives', 'stability_derivatives', 'damping_derivatives',
          'control_derivatives')
MODES = ('full', 'maybe', 'none', 'flight only', 'control only')


def check(ck):
    seen = set()
    ck.done = {}
    ck.jobs = 1                         # loops already decided are shared between the parts
    one = skel.plane(skel.W1(), [skel.prop('p1', motor=False)])
    wings = skel.plane(skel.W3(), [])
    for op in SEARCH:
        for mode in MODES:
            for file in (False, True):
                M.part(ck, '%s, %s states%s' % (op, mode, ', file' if file else ''), one, search, op, mode, file, seen)
        ck.part('%s without wings' % op, direct, ck, skel.plane([], [skel.prop('p1', motor=False)]), op, 'full', 'J', seen)
    for mode in MODES:
        ck.part('solve wings, %s' % mode, direct, ck, wings, 'solve', mode, None, seen)
    ck.part('distributions wings', direct, ck, wings, 'distributions', 'maybe', None, seen)
    ck.part('export', direct, ck, one, 'create_stl', None, None, seen)
    for name, kw in P.KINDS:
        doc = skel.plane([], [skel.prop('p1', **kw)])
        ck.part('propeller ' + name, direct, ck, doc, 'distributions', 'full', 'J', seen)
    for key in ('rot_per_sec', 'brake_power', 'electric_throttle', 'nested', None):
        doc = skel.plane([], [skel.prop('p1'), skel.prop('p2', motor=False)] if key == 'nested' else [skel.prop('p1')])
        ck.part('setting %s' % key, direct, ck, doc, 'distributions' if key == 'nested' else 'solve', 'maybe', key, seen)
    ck.part('both', direct, ck, one, 'distributions', 'maybe', 'J', seen)
    ck.part('call graph', syntactic, ck, seen)


def split(w, mode, key='J'):
    d = hargs(w, 'a', 'maybe' if mode == 'maybe' else 'none' if mode == 'none' else 'full', key)
    if mode == 'flight only':
        d['control_state'] = NONE
    if mode == 'control only':
        d['aero_state'] = NONE
    return d


def search(ck, w, mu, op, mode, file, seen):
    if op == 'stall_airspeed':
        w.I.summaries['MachUp.stall_onset'] = M.onset_summary
    kw = split(w, mode)
    if op in LEAD:
        kw['error'] = atom('tol.error')
    if file:
        if op.endswith('_derivatives'):
            return
        kw['filename'] = string('run.json')
    w.valid = False
    o = w.do(mu, op, *[atom('target%d' % k) for k in range(LEAD.get(op, 0))], **kw)
    judge(ck, w, o, seen)


def direct(ck, doc, op, mode, key, seen):
    w = ck.world(doc)
    w.valid = False
    mu = w.machup()
    kw = dict(filename=string('run.stl')) if op == 'create_stl' else split(w, mode, key)
    o = w.do(mu, op, *[atom('target%d' % k) for k in range(LEAD.get(op, 0))], **kw)
    judge(ck, w, o, seen)


def judge(ck, w, o, seen):
    I = w.I
    for q in I.funcs_analysed:
        ck.count('functions entered', 0)
        seen.add(('f',) + q)
    for r in I.loops:
        seen.add(('l', str(r.loc[0]), r.loc[1]))
        if not str(r.loc[0]).startswith(os.path.join(w.root, 'machup')):
            continue
        key = (r.loc[0], r.loc[1])
        sig = frozenset((c.id) for c in r.leaving)
        name = 'loop in %s' % (r.loc[2] if len(r.loc) > 2 else r.func)
        if r.seq is not None and not endless(r.seq.count):
            ck.count('loops over finite sequences')
            ck.ok(name, 'finite sequence')
            continue
        if generator(r.node, w, r):
            ck.undec(name, 'loop of a generator')
            continue
        ck.count('recurrences')
        rank(ck, w, r, name)
    for ev in o.events:
        if ev[0] == 'recursion':
            c = conj(ev[3].pc)
            if not ck.possible(c):
                continue
            if ev[4]:
                ck.fail('recursion in ' + ev[1], REC, ev[2], detail='called again with the same arguments')
            else:
                ck.undec('recursion in ' + ev[1], 'deeper than %d calls' % I.rec_limit)
    if not any(ev[0] == 'recursion' for ev in o.events):
        ck.ok('no unbounded recursion')


def endless(n):
    for x in ir.walk(n, set()):
        if any(type(a) is str and ('itertools.count' in a or 'itertools.cycle' in a or 'itertools.repeat' in a) for a in x.args):
            return True
    return False


def generator(node, w, r):
    if not os.path.exists(str(r.loc[0])):
        return False
    tree = ast.parse(open(r.loc[0]).read())
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef) and f.lineno <= node.lineno <= f.end_lineno and any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)):
            return True
    return False


def free(n, L, keep):
    m = {}
    for lf in n.leaves:
        if lf.op in ('mu', 'li') and lf is not keep:
            m[lf] = atom('%s.%d' % (lf.op, lf.id))
    return ir.subst(n, m) if m else n


def steps(n, m):
    """[(kind, constant)] of the ways variable m moves in one iteration"""
    if n.op == 'ite':
        a, b = steps(n.args[1], m), steps(n.args[2], m)
        return None if a is None or b is None else a + b
    d = ir.sub(n, m)
    if d.op == 'n':
        return [('+', d)]
    if not any(l.op in ('mu', 'li') for l in d.leaves):
        return [('+', d)]
    q = ir.div(n, m)
    if q.op == 'n':
        return [('*', q)]
    return None


def sign(ck, d):
    if d.op == 'n':
        return (d.args[0] > 0) - (d.args[0] < 0)
    ck.V.scan(d)
    v = ck.V.ev(d, {})
    return 1 if (v > 0).all() else -1 if (v < 0).all() else 0


def rank(ck, w, r, name):
    leave = FALSE
    for c in list(r.leaving) + list(r.raising):
        leave = or_(leave, c)
    if r.back is None:
        ck.ok(name, 'never repeats')
        return
    cand = [(m, nx[1]) for m, nx in r.nexts.items() if nx[0] == 'node']
    if r.seq is not None:
        cand.append((r.li, ir.add(r.li, num(1))))
    tried = []
    unknown = bool(leave.flags & ir.F_UNK)
    for m, nx in cand:
        st = steps(nx, m)
        if not st:
            continue
        sg = set()
        far = None
        for k, d in st:
            if k == '+':
                sg.add(sign(ck, d))
            else:
                c = d.args[0]
                sg.add(2 if 0 < c < 1 else 3 if c > 1 else 0)
        if len(sg) != 1 or 0 in sg:
            continue
        s = sg.pop()
        for far in {1: (num(10 ** 9),), -1: (num(-10 ** 9),), 2: (num('1e-30'), num('-1e-30')), 3: (num(10 ** 30),)}[s]:
            e = free(ir.subst(leave, {m: far}), r.L, None)
            v, how = ck.verdict(e, TRUE)
            tried.append((m, v, how))
            if v != 'same':
                break
        else:
            ck.ok(name, 'variable moves by a constant until the exit condition holds')
            return
        unknown |= v == 'unknown'
    if unknown:
        ck.undec(name, 'exit condition not modelled')
        return
    ck.fail(name, RULE, r.loc, leave, detail='no variable of the loop forces its exit; it leaves only if %s' % ir.show(leave, 3)[:300], key='%s|%s' % (os.path.basename(str(r.loc[0])), r.func))


# ---------------------------------------------------------------- call graph
def syntactic(ck, seen):
    """loops in functions that may be reached but were not entered, and loops
    that lengthen the list they run over"""
    base = os.path.join(W.REPO, 'machup')
    funcs = {}
    for fn in sorted(os.listdir(base)):
        if not fn.endswith('.py'):
            continue
        tree = ast.parse(open(os.path.join(base, fn)).read())
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                nm = getattr(n, 'name', '<lambda>')
                funcs.setdefault(nm, []).append((fn, n))
    entered = {q.rsplit('.', 1)[-1] for _, m, q in (x for x in seen if x[0] == 'f')}
    todo, reach = [n for n in funcs if not n.startswith('_')] + ['__init__'], set()
    while todo:
        n = todo.pop()
        if n in reach:
            continue
        reach.add(n)
        for fn, f in funcs.get(n, ()):
            for x in ast.walk(f):
                nm = x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) else None
                if nm in funcs and nm not in reach:
                    todo.append(nm)
    n = 0
    for nm in sorted(funcs):
        for fn, f in funcs[nm]:
            for x in ast.walk(f):
                if isinstance(x, ast.For):
                    n += 1
                    grows(ck, fn, nm, x)
                elif isinstance(x, ast.While) and nm not in entered:
                    n += 1
                    if nm not in reach:
                        ck.notes.append(('unreachable', '%s:%d %s' % (fn, x.lineno, nm)))
                    else:
                        counted(ck, fn, nm, x)
    ck.count('loops in the source', n)


def grows(ck, fn, nm, x):
    it = ast.dump(x.iter)
    leaves = any(isinstance(y, (ast.Break, ast.Return, ast.Raise)) for y in ast.walk(x))
    for y in ast.walk(x):
        if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ('append', 'extend', 'insert') and ast.dump(y.func.value) == it and not leaves:
            ck.fail('loop in ' + nm, RULE, (fn, x.lineno, nm), detail='the sequence grows while it is iterated')
            return
    ck.ok('loop in %s keeps its sequence' % nm)


def counted(ck, fn, nm, x):
    """a while loop that was not interpreted: a counter raised in its own
    statement list and an exit comparing it"""
    inc = {ast.dump(s.target): s for s in x.body if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.value, ast.Constant)
           and isinstance(s.value.value, (int, float)) and s.value.value > 0}
    for c in ast.walk(x):
        if isinstance(c, ast.Compare) and any(ast.dump(v).replace('Load', 'Store') in inc for v in [c.left] + c.comparators):
            ck.ok('loop in ' + nm, 'counter')
            return
    ck.undec('loop in ' + nm, 'may be reached, not interpreted')
