"""Result files.  Files are modelled on the abstract heap: opening for writing
empties a file whose earlier content is unknown, text written to a handle stays
in the handle's buffer until it is flushed or the handle is closed or dropped.
After every operation with a file name the content must be one JSON document
equal to the returned value (searches and derivatives, error reports included),
the three load dictionaries (solve), or tables whose columns are the returned
distributions that their headings name."""
import re
from .common import *
from . import modular as M
from .history import args as hargs
from ..heap import Heap, SliceV
from ..interp import Dead

RULE = 'a result file holds exactly the values its operation computed'
DONE = 'a result file is complete when the operation returns'
NONEW = 'nothing is written when no file is named'
WING = {'name': ('name', None), 'controlpoint(x)': ('control_points', 0), 'controlpoint(y)': ('control_points', 1), 'controlpoint(z)': ('control_points', 2),
        'chord': ('chord', None), 'twist(deg)': ('twist', None), 'dihedral(deg)': ('dihedral', None), 'sweep(deg)': ('sweep', None), 'area': ('area', None),
        'alpha(deg)': ('alpha', 'deg'), 'force(x)': ('forces_xyz', 0), 'force(y)': ('forces_xyz', 1), 'force(z)': ('forces_xyz', 2),
        'sectioncl': ('section_CL', None), 'sectioncm': ('section_Cm', None), 'sectioncdparasitic': ('section_CD_parasitic', None),
        'sectionalpha_l0': ('section_alpha_L0', None), 'sectioncl_ref': ('section_CL_ref', None)}
PROP = {'name': ('name', None), 'radialposition': ('radial_position', None), 'chord': ('chord', None), 'pitch(deg)': ('pitch', None),
        'advangeangle(deg)': ('advance_angle', None), 'advanceangle(deg)': ('advance_angle', None), 'inducedangle(deg)': ('induced_angle', None),
        'alpha(deg)': ('alpha', None), 'sectioncl': ('section_CL', None), 'sectioncd': ('section_CD', None), 'inducedvelocity,vi': ('Vi', None),
        'vi(axial)': ('Vi_x', None), 'vi(tangential)': ('Vi_t', None)}
LEAD = {'target_lift': 1, 'pitch_trim': 2, 'stall_airspeed': 1}
OPS = ('derivatives', 'find_aero_center', 'stall_onset', 'stall_airspeed', 'target_lift', 'pitch_trim')
QUIET = OPS + ('stability_derivatives', 'damping_derivatives', 'control_derivatives')


def check(ck):
    ck.V.kmax = ck.V2.kmax = 110        # past the iteration limits of the searches
    one = skel.plane(skel.W1(), [skel.prop('p1', motor=False)])
    wings = skel.plane(skel.W3(), [])
    lone = skel.plane(skel.W1(), [])
    props = skel.plane([], [skel.prop('p1', motor=False)])
    two = skel.plane(skel.Wleft()[:1], [skel.prop('p1', motor=False), skel.prop('p2', motor=False, rot='CW')])
    for mode in ('full', 'none'):
        ck.part('solve, %s states' % mode, loads, ck, one, mode)
        ck.part('solve, propellers only, %s states' % mode, loads, ck, props, mode)
        ck.part('solve, wings only, %s states' % mode, loads, ck, wings, mode)
    for name in ('run.txt', 'run.json', None):
        for label, doc in (('wings', lone), ('propellers', props), ('wing and propeller', one)):
            ck.part('distributions, %s, %s' % (label, name or 'any name'), tables, ck, doc, name)
    if ck.thorough():
        ck.part('distributions, several wings', tables, ck, wings, 'run.txt')
        ck.part('distributions, two propellers', tables, ck, two, 'run.json')
    for op in OPS:
        for mode in ('full', 'maybe', 'none', 'flight only', 'control only'):
            for err in ((True, False) if op in LEAD else (None,)):
                M.part(ck, '%s, %s states%s' % (op, mode, '' if err is None else ', tolerance' if err else ', default tolerance'), one, search, op, mode, err)
        ck.part('%s without wings' % op, nowings, ck, props, op)
    for op in QUIET:
        M.part(ck, '%s without a file' % op, one, quiet, op)
    ck.part('solve without a file', nofile, ck, one, 'solve')
    ck.part('distributions without a file', nofile, ck, one, 'distributions')


# ---------------------------------------------------------------- file contents
def files(w, st=None):
    o = (st or w.I.st).heap.get(w.I.fs.oid)
    return {k: w.I.fs_node(k, v) for k, v in o.f.items()}


def settle(ck, w, before):
    """handles left open at the end: those the aircraft or a module still holds
    keep what is in their buffer; the others are dropped and so closed"""
    I = w.I
    for ev in I.events[before:]:
        if ev[0] != 'open' or 'r' in ev[2] and '+' not in ev[2]:
            continue
        o = I.st.heap.get(ev[4])
        if o is None or o.f['open'] is FALSE:
            ck.ok('handle closed')
            continue
        if held(w, ev[4]):
            ck.fail('handle closed', DONE, ev[3], detail='the handle stays open')
        else:
            I.file_flush(Ref(ev[4]))


def held(w, oid):
    I = w.I
    for k in I.st.heap.diff(Heap()):
        o = I.st.heap.get(k)
        if o is not None and o.kind in ('inst', 'mod') and any(type(v) is Ref and v.oid == oid for v in o.f.values()):
            return True
    return False


def cases(n, cond=TRUE):
    """alternatives of a content node: [(condition, node)]"""
    if n.op == 'ite':
        return cases(n.args[1], and_(cond, n.args[0])) + cases(n.args[2], and_(cond, not_(n.args[0])))
    if n.op == 'cat' and n.args[0].op == 'ite':
        c = n.args[0].args[0]
        return cases(raw('cat', n.args[0].args[1], n.args[1]), and_(cond, c)) + cases(raw('cat', n.args[0].args[2], n.args[1]), and_(cond, not_(c)))
    return [(cond, n)]


def lift(n):
    """containers on the outside: the document a loop leaves behind is a
    document of the values the loop leaves behind"""
    if n.op in ('cat', 'json', 'dict', 'ite', 'list', 'tuple'):
        a = [lift(x) if isinstance(x, Node) and (n.op != 'ite' or k) else x for k, x in enumerate(n.args)]
        return ir.ite(*a) if n.op == 'ite' else raw(n.op, *a)
    if n.op == 'loopval':
        e = n.args[-1].args[0]

        def at(x):
            if x.op in ('cat', 'json', 'dict', 'list', 'tuple'):
                return raw(x.op, *[at(y) if isinstance(y, Node) else y for y in x.args])
            if x.op == 'ite' and shape(x):
                return ir.ite(at(x.args[0]), at(x.args[1]), at(x.args[2]))
            if x.op in ('empty', 's', 'b', 'none') or not x.leaves and not any(y.op in ('bound', 'mu') for y in ir.walk(x, set())):
                return x
            return ir.fix_binder(raw('loopval', *(n.args[:-1] + (raw('lsys', x, *n.args[-1].args[1:]),))), n.args[0])
        if shape(e):
            return at(e)
    return n


def shape(n):
    return n.op in ('cat', 'json', 'dict') or n.op == 'ite' and (shape(n.args[1]) or shape(n.args[2]))


def items(n):
    """pieces a file was written from, or None if older content precedes them"""
    out = []
    while n.op == 'cat':
        out.append(n.args[1])
        n = n.args[0]
    return out[::-1] if n.op == 'empty' else None


def flat(n, cond=TRUE):
    """{key: (presence, value)} of a frozen dictionary"""
    if n.op == 'ite':
        a, b = flat(n.args[1]), flat(n.args[2])
        if a is None or b is None:
            return None
        out = {}
        for k in list(a) + [k for k in b if k not in a]:
            pa, x = a.get(k, (FALSE, None))
            pb, y = b.get(k, (FALSE, None))
            p = or_(and_(n.args[0], pa), and_(not_(n.args[0]), pb))
            out[k] = (p, y if pa is FALSE else x if pb is FALSE else ir.ite(n.args[0], x, y))
        return out
    if n.op != 'dict':
        return None
    return {n.args[k].args[0]: (n.args[k + 1], n.args[k + 2]) for k in range(0, len(n.args), 3)}


def same_doc(ck, name, got, want, under):
    """a JSON document against a frozen value"""
    if got is want:
        ck.ok(name, 'identical')
        return
    g, x = flat(got), flat(want)
    if g is None or x is None:
        ck.same(name, got, want, RULE, None if under is TRUE else under)
        return
    for k in x:
        p, v = x[k]
        if p is FALSE:
            continue
        if k not in g:
            ck.same('%s[%s] present' % (name, k), FALSE, p, RULE, None if under is TRUE else under)
            continue
        q, y = g[k]
        ck.same('%s[%s] present' % (name, k), q, p, RULE, None if under is TRUE else under)
        same_doc(ck, '%s[%s]' % (name, k), y, v, and_(under, and_(p, q)))
    for k in g:
        if k not in x and g[k][0] is not FALSE:
            ck.same('%s[%s] present' % (name, k), g[k][0], FALSE, RULE, None if under is TRUE else under)


def plain(ck, name, doc):
    """JSON has no arrays of the numerics library and no sets"""
    for n in ir.walk(doc, set()):
        if n.op in ('arr', 'rec', 'inst') and n is not doc and direct(doc, n):
            ck.fail(name + ' can be written', DONE, n.loc, n, detail='not a JSON value')
            return
    ck.ok(name + ' can be written', 'plain values')


def direct(doc, n):
    """n occurs in doc as an entry, not inside a number"""
    if doc is n:
        return True
    if doc.op in ('dict', 'list', 'tuple', 'ite'):
        return any(isinstance(a, Node) and direct(a, n) for a in doc.args)
    return False


def document(ck, w, name, content, want, under=TRUE):
    """content must be the one document `want`"""
    for c, n in cases(lift(content)):
        u = and_(under, c)
        if u is FALSE:
            continue
        it = items(n)
        if (it is None or len(it) != 1) and not ck.possible(u):
            ck.undec(name, 'an exit that no sample takes leaves something else')
            continue
        if it is None or len(it) != 1:
            ck.fail(name + ' is one document', RULE, n.loc, n,
                    detail='older content is kept' if it is None else 'the file is left empty' if not it else '%d pieces' % len(it))
            continue
        if it[0].op != 'json':
            ck.undec(name, 'written as ' + it[0].op)
            continue
        plain(ck, name, it[0].args[0])
        for c1, g in cases(it[0].args[0]):
            for c2, x in cases(lift(want)):
                u2 = and_(u, and_(c1, c2))
                if u2 is not FALSE and ck.possible(u2):
                    same_doc(ck, name, g, x, u2)


# --------------------------------------------------------------------- the file
def run(ck, w, mu, op, name, *a, **kw):
    """call op with the file name and return (outcome, content)"""
    I = w.I
    e0 = len(I.events)
    before = files(w)
    fn = atom('file', 'str') if name is None else string(name)
    got = w.do(mu, op, *a, filename=fn, **kw)
    if got.dead:
        raise Dead()
    settle(ck, w, e0)
    after = files(w)
    k = w.freeze(fn)
    for x in after:
        if x is not k and after[x] is not before.get(x):
            ck.fail('only the named file', NONEW, after[x].loc, detail='writes %s' % ir.show(x, 2))
    if k not in after:
        ck.fail('file written', RULE, detail='the named file is not written')
        raise Stop()
    return got, after[k]


def loads(ck, doc, mode):
    w = ck.world(doc)
    mu = w.machup()
    parts = {}

    def tap(q, key):
        def go(I, f, a, kw):
            del I.summaries[q]
            try:
                r = I.call(f, list(a), kw)
            finally:
                I.summaries[q] = go
            parts.setdefault(key, []).append((r, I.freeze(r[0] if type(r) is tuple else r)))
            return r
        return go
    w.I.summaries['LLModel.solve'] = tap('LLModel.solve', 'wing_results')
    w.I.summaries['PropsSolver.solve'] = tap('PropsSolver.solve', 'prop_results')
    got, content = run(ck, w, mu, 'solve', 'run.json', **hargs(w, 'a', mode, 'J'))
    want = {'total_results': w.freeze(got.val)}
    for k, v in parts.items():
        want[k] = v[-1][1]
    for k, has in (('wing_results', 'wings' in doc), ('prop_results', 'propellers' in doc)):
        if not has:
            want[k] = w.freeze(w.I.new_dict({}))
        elif k not in want:
            ck.undec(k, 'solver not called by its documented entry')
            return
    args = []
    for k in sorted(want):
        args += [string(k), TRUE, want[k]]
    document(ck, w, 'loads file', content, raw('dict', *args))


def tables(ck, doc, name):
    w = ck.world(doc)
    mu = w.machup()
    got, content = run(ck, w, mu, 'distributions', name, **hargs(w, 'a', 'full', 'J'))
    wd, pd = [w.dict_items(w.I.get_item(got.val, num(k))) for k in (0, 1)]
    seen = False
    for c, n in cases(content):
        if not ck.possible(c):
            continue
        it = items(n)
        if it is None:
            ck.fail('table file', RULE, n.loc, n, detail='older content is kept')
            continue
        if len(it) == 1 and it[0].op == 'json':
            d = flat(it[0].args[0])
            if name == 'run.txt':
                ck.fail('table file', RULE, n.loc, n, detail='not a text file')
                continue
            src = [x for x in ir.walk(d['data'][1], set()) if x.op == 'f:strread'] if d and 'data' in d else []
            if not src:
                ck.fail('table file[data]', RULE, n.loc, n, detail='does not hold the tables')
                continue
            inner = []
            for s in src:
                inner += cases(s.args[0], c)
            for c2, m in inner:
                seen = True
                table_set(ck, w, items(m), wd, pd, c2, m)
        elif name == 'run.json':
            ck.fail('table file', RULE, n.loc, n, detail='not a JSON document')
        else:
            seen = True
            table_set(ck, w, it, wd, pd, c, n)
    if not seen:
        ck.undec('table file', 'content not recognised')


def table_set(ck, w, it, wd, pd, cond, n):
    want = [(k, m, d) for k, m, d in (('wing table', WING, wd), ('propeller table', PROP, pd)) if d]
    tabs = [x for x in it or () if x.op == 'table']
    if it is None or len(tabs) != len(it):
        if it and any(x.op != 'text' for x in it if x.op != 'table') or it is None:
            ck.undec('tables', 'content not recognised')
            return
    if len(tabs) != len(want):
        ck.fail('tables in the file', RULE, n.loc, n, detail='%d tables for %d distributions' % (len(tabs), len(want)))
        return
    for t, (label, heads, d) in zip(tabs, want):
        one_table(ck, w, label, t, heads, d, cond)


def one_table(ck, w, label, t, heads, d, cond):
    hdr, fmt, names, cols = t.args[0], t.args[1], t.args[2], t.args[3:]
    if hdr.op != 's' or names is NONE:
        ck.undec(label, 'headings or columns are not constant')
        return
    words = [x for l in hdr.args[0].split('\n') if len(l.split()) > 2 for x in l.split()]
    if len(words) != len(cols):
        ck.fail(label, RULE, t.loc, detail='%d headings for %d columns' % (len(words), len(cols)))
        return
    if fmt.op == 's':
        conv = re.findall(r'%[-+ #0]*(\d*)(?:\.(\d+))?([a-zA-Z])', fmt.args[0])
        if len(conv) not in (1, len(cols)):
            ck.fail(label + ' format', RULE, fmt.loc, detail='%d formats for %d columns' % (len(conv), len(cols)))
        elif any(c[2] in 'di' or c[2] in 'eg' and c[1] and int(c[1]) < 6 for c in conv):
            ck.fail(label + ' format', RULE, fmt.loc, detail='digits are dropped: ' + fmt.args[0][:60])
        elif len(conv) > 1 and re.search(r'[a-zA-Z]%', fmt.args[0]):
            ck.fail(label + ' format', RULE, fmt.loc, detail='columns run together')
        else:
            ck.ok(label + ' format')
    todo = set(v for v in heads.values())
    for h, c in zip(words, cols):
        k = heads.get(h.lower())
        if k is None:
            ck.fail('%s %s' % (label, h), RULE, t.loc, detail='unknown heading')
            continue
        todo.discard(k)
        key, sub = k
        if key not in d:
            ck.fail('%s %s' % (label, h), RULE, t.loc, detail='no returned distribution "%s"' % key)
            continue
        v = d[key][1]
        if sub is not None and sub != 'deg':
            v = w.I.get_item(v, (SliceV(NONE, NONE, NONE), num(sub)))
        if sub == 'deg':
            v = w.call(w.specfn('analysis', 'in_degrees'), v).val
        ck.same('%s %s' % (label, h), c, w.freeze(v), RULE, None if cond is TRUE else cond)
    for k in todo:
        ck.fail('%s %s' % (label, k[0]), RULE, t.loc, detail='column missing')


# ------------------------------------------------------------------- searches
def lead(op):
    return [atom('target%d' % k) for k in range(LEAD.get(op, 0))]


def split(w, mode):
    d = hargs(w, 'a', 'maybe' if mode == 'maybe' else 'none' if mode == 'none' else 'full', 'J')
    if mode == 'flight only':
        d['control_state'] = NONE
    if mode == 'control only':
        d['aero_state'] = NONE
    return d


def search(ck, w, mu, op, mode, err):
    kw = split(w, mode)
    if err:
        kw['error'] = atom('tol.error')
    if op == 'stall_airspeed':
        w.I.summaries['MachUp.stall_onset'] = M.onset_summary
    got, content = run(ck, w, mu, op, 'run.json', *lead(op), **kw)
    result(ck, w, op, got, content)


def result(ck, w, op, got, content):
    if op == 'find_aero_center':
        parts = {'x_ac': w.freeze(w.I.get_item(got.val, num(0))), 'z_ac': w.freeze(w.I.get_item(got.val, num(2)))}
        want = raw('dict', *[x for k in sorted(parts) for x in (string(k), TRUE, parts[k])])
    else:
        want = w.freeze(got.val)
    document(ck, w, op + ' file', content, want)


def nowings(ck, doc, op):
    """either an exception, or an error report that the file repeats"""
    w = ck.world(doc)
    w.valid = False
    mu = w.machup()
    kw = hargs(w, 'a', 'full', 'J')
    I = w.I
    e0 = len(I.events)
    got = w.do(mu, op, *lead(op), filename=string('run.json'), **kw)
    if got.dead:
        ck.ok('%s raises' % op)
        return
    settle(ck, w, e0)
    f = files(w)
    k = string('run.json')
    if k not in f:
        ck.fail('file written', RULE, detail='the named file is not written')
        return
    result(ck, w, op, got, f[k])


def quiet(ck, w, mu, op):
    if op == 'stall_airspeed':
        w.I.summaries['MachUp.stall_onset'] = M.onset_summary
    untouched(ck, w, mu, op, hargs(w, 'a', 'maybe', 'J'))


def nofile(ck, doc, op):
    w = ck.world(doc)
    untouched(ck, w, w.machup(), op, hargs(w, 'a', 'maybe', 'J'))


def untouched(ck, w, mu, op, kw):
    before = files(w)
    got = w.do(mu, op, *lead(op), **kw)
    states = [('return', w.I.st)] if not got.dead else []
    states += [(e.name, s) for e, s in got.raises]
    for name, s in states:
        after = files(w, s)
        new = [k for k in after if after[k] is not before.get(k)]
        if new:
            ck.fail('%s, exit %s' % (op, name), NONEW, after[new[0]].loc, detail='writes %s' % ir.show(new[0], 2))
        else:
            ck.ok('%s, exit %s' % (op, name), 'no file changed')
