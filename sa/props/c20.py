"""File reader and construction interface.  One aircraft is read from an abstract
airplane file whose values are unknowns, another one is assembled through the
construction interface from the same unknowns; section data, accessors, wing
loads, propeller loads and slipstream of the two are compared by value numbering
(the section data also with the reference description).  Optional entries left
out are compared with their documented defaults given, and files that differ in
the order of their entries with each other."""
import copy
from .common import *
from . import propcmp as P
from .c11 import accessors
from .c15 import FO
from .c18 import vec
from .history import at
from ..heap import SliceV

RULE = 'the aircraft assembled in code from the same settings gives the same results as the one read from the file'
DEFAULT = 'an entry left out means its documented default'
ORDER = 'the order of entries with identities does not matter'


def check(ck):
    skels = [('three wings and a fin', skel.W3()), ('wing and left fin', skel.Wleft()), ('single wing', skel.W1())]
    for name, wings in skels:
        ck.part(name, wings_pair, ck, skel.plane(wings, []), name)
    for name, kw in P.KINDS:
        ck.part('propeller: ' + name, prop_pair, ck, skel.plane([], [skel.prop('p1', **kw)]), ('J', 'rot_per_sec'))
    ck.part('propeller: motor', prop_pair, ck, skel.plane([], [skel.prop('p1'), skel.prop('p2', rot='CW', motor=False)], units=None), ('J',))
    ck.part('wings and propeller', both, ck, skel.plane(skel.Wleft(), [skel.prop('p1')]))
    ck.part('optional entries of the file', file_defaults, ck)
    ck.part('defaults of the construction interface, wings', wing_defaults, ck)
    ck.part('defaults of the construction interface, propellers', prop_defaults, ck)
    ck.part('units', units, ck)
    ck.part('positions', positions, ck)
    ck.part('keys in any order', keys_reversed, ck)
    ck.part('wings in any order', wings_reordered, ck)
    ck.part('propellers in any order', props_reordered, ck)


# ------------------------------------------------------------- construction
def V(w, x):
    return skel.build(w.I, x)


def from_file(w, doc=None):
    if doc is not None:
        w.doc = doc
    return w.call(w.attr('machup', 'Airplane'), inputfile=atom('infile', 'str')).val


def in_code(w, doc):
    """the calls a user would write for the aircraft of this document"""
    d = doc
    ap = w.call(w.attr('machup', 'Airplane'), name=string(d['plane']['name'])).val
    c = d['plane']
    w.do(ap, 'cg_location', V(w, c['CGx']), V(w, c['CGy']), V(w, c['CGz']))
    r = d['reference']
    w.do(ap, 'set_reference_lengths', lateral=V(w, r['lateral_length']), longitudinal=V(w, r['longitudinal_length']))
    ids = {x['ID']: n for n, x in d.get('wings', {}).items()}
    for n, x in d.get('wings', {}).items():
        c = x['connect']
        kw = dict(side=string(x['side']), position=w.I.new_list([V(w, c[k]) for k in ('dx', 'dy', 'dz')]), yoffset=V(w, c['yoffset']))
        if c['ID'] != 0:
            kw['connect_to'] = tuple([string(ids[c['ID']]), string(c['location'])])
        for k, f in (('is_main', 'is_main'), ('semispan', 'span'), ('sweep', 'sweep'), ('dihedral', 'dihedral'), ('mount_angle', 'mounting_angle'),
                     ('washout', 'washout'), ('root_chord', 'root_chord'), ('tip_chord', 'tip_chord'), ('grid', 'grid')):
            if f in x:
                kw[k] = V(w, x[f])
        o = w.do(ap, 'add_wing', string(n), **kw).val
        fo = list(x['airfoils'].items())
        for (nm, f), end in zip(fo[:2], ('root', 'tip') if len(fo) > 1 else ('both',)):
            w.do(o, 'airfoil', string(nm), string(end), **{k: V(w, f['properties'][k]) for k in FO})
        c = x['control']
        if c:
            T = lambda a, b: tuple([V(w, c[a]), V(w, c[b])])
            w.do(o, 'control_surface', percent_span=T('span_root', 'span_tip'), percent_chord=T('chord_root', 'chord_tip'), mix=V(w, c['mix']),
                 sealed=V(w, c['is_sealed']))
    for n, x in d.get('propellers', {}).items():
        o = w.do(ap, 'add_prop', string(n), **prop_args(w, x)).val
        fo = list(x['airfoils'].items())
        for (nm, f), end in zip(fo[:2], (string('root'), string('tip')) if len(fo) > 1 else (NONE,)):
            w.do(o, 'airfoil', string(nm), span_position=end, **{k: V(w, f['properties'][k]) for k in FO})
    return ap


def prop_args(w, x):
    L = lambda d, ks: w.I.new_list([V(w, d[k]) for k in ks])
    kw = dict(position=L(x['position'], ('dx', 'dy', 'dz')), orientation=L(x['orientation'], ('elevation_angle', 'heading_angle')),
              rot_dir=string(x['rotation_direction']), pitch_info=V(w, x['pitch']), chord_info=V(w, x['chord']))
    for k, f in (('nodes', 'radial_nodes'), ('diameter', 'diameter'), ('hub_diameter', 'hub_diameter'), ('num_of_blades', 'num_of_blades')):
        kw[k] = V(w, x[f])
    if 'electric_motor' in x:
        kw['electric_motor'] = V(w, x['electric_motor'])
    return kw


# --------------------------------------------------------------- comparisons
GETTERS = ('get_cg_location', 'get_long_ref', 'get_lat_ref', 'get_num_sections')


def same(ck, w, name, a, b, rule=RULE):
    if a.dead or b.dead:
        if a.dead != b.dead:
            ck.fail(name, rule, detail='one of the two has no normal exit')
        return
    ck.same(name, w.freeze(a.val), w.freeze(b.val), rule)


def getters(ck, w, a, b, rule=RULE, names=GETTERS):
    for g in names:
        if not has(w, a, g):
            ck.undec(g, 'no accessor %s' % g)
            continue
        same(ck, w, g[4:], w.do(a, g), w.do(b, g), rule)


def wing_results(ck, w, a, b, rule=RULE):
    aero, ctl = w.aero(), w.ctl()
    out = []
    for ap in (a, b):
        m = w.call(w.attr('machup', 'LLModel'), ap).val
        out.append(w.do(m, 'solve', string('linear'), aero, ctl))
    ck.same_dict('loads', w, out[0].val, out[1].val, rule)


def prop_results(ck, w, a, b, keys, rule=RULE, pts=True):
    from .c03 import compare_as
    aero = w.aero()
    for key in keys:
        ps = w.pstate(key) if key else NONE
        out = []
        for ap in (a, b):
            s = w.call(w.attr('machup', 'PropsSolver'), ap, P.points(w, 'p1') if pts else NONE).val
            r, st = at(w, w.I.st, lambda: w.do(s, 'solve', aero, ps))
            out.append((r, w.in_state(st, lambda: w.freeze(r.val)) if not r.dead else None))
        (r, x), (t, y) = out
        nm = key or 'no setting'
        ck.same(nm + ' raises', r.raise_cond(), t.raise_cond(), rule)
        if x is None or y is None:
            if x is not y:
                ck.fail(nm, rule, detail='one of the two has no normal exit')
            continue
        compare_as(ck, w, nm, x, y, TRUE, rule)


def wings_pair(ck, doc, name):
    w = ck.world(doc)
    a, b = from_file(w), in_code(w, doc)
    getters(ck, w, a, b)
    grid = lambda ap: w.call(w.attr('machup', 'LLGrid'), ap).val
    accessors(ck, w, grid(a), doc, rule='every setting of the file reaches the model under its own meaning')
    accessors(ck, w, grid(b), doc, rule=RULE)
    if ck.thorough() or name != 'three wings and a fin':
        wing_results(ck, w, a, b)


def prop_pair(ck, doc, keys):
    w = ck.world(doc)
    a, b = from_file(w), in_code(w, doc)
    getters(ck, w, a, b)
    prop_results(ck, w, a, b, keys)


def both(ck, doc):
    w = ck.world(doc)
    a, b = from_file(w), in_code(w, doc)
    wing_results(ck, w, a, b)
    prop_results(ck, w, a, b, ('J',))


# ------------------------------------------------------------------ defaults
def file_defaults(ck):
    """the file with and without its optional entries"""
    full = skel.plane(skel.Wleft(), [skel.prop('p1', motor=False)], units=None)
    for x in full['wings'].values():
        x['is_main'] = 1
    w0 = skel.plane(skel.Wleft(), [skel.prop('p1', motor=False)], units=None)
    for x in w0['wings'].values():
        x.pop('is_main')
    w0['condition'].pop('units')
    full['propellers']['prop1']['electric_motor'] = {}
    w = ck.world(full)
    a, b = from_file(w, full), from_file(w, w0)
    getters(ck, w, a, b, DEFAULT, GETTERS + ('get_units',))
    grid = lambda ap: w.call(w.attr('machup', 'LLGrid'), ap).val
    area = [w.do(grid(ap), 'get_reference_area') for ap in (a, b)]
    same(ck, w, 'reference area', area[0], area[1], DEFAULT)
    prop_results(ck, w, a, b, ('J',), DEFAULT)
    for part in ('wings', 'propellers'):
        d = copy.deepcopy(full)
        d.pop(part)
        w = ck.world(d)
        o = w.call(w.attr('machup', 'Airplane'), inputfile=atom('infile', 'str'))
        if o.dead:
            ck.fail('file without ' + part, DEFAULT, detail='always raises')
        else:
            n = {'wings': 'get_wingsegments', 'propellers': 'get_props'}[part]
            ck.same('file without ' + part, w.freeze(w.do(o.val, n).val), w.freeze(w.I.new_list([])), DEFAULT)
    # entries of a control mix
    for k in ('aileron', 'elevator', 'rudder', 'flap'):
        d0, d1 = skel.plane(skel.W1(), []), skel.plane(skel.W1(), [])
        d0['wings']['wing']['control']['mix'].pop(k)
        d1['wings']['wing']['control']['mix'][k] = 0
        w = ck.world(d0)
        g = [w.call(w.attr('machup', 'LLGrid'), from_file(w, d)).val for d in (d0, d1)]
        same(ck, w, 'mix without ' + k, w.do(g[0], 'get_control_mix'), w.do(g[1], 'get_control_mix'), DEFAULT)
    # no control surface is one that is never mixed
    d0, d1 = skel.plane(skel.W1(), []), skel.plane(skel.W1(), [])
    d0['wings']['wing']['control'] = {}
    d1['wings']['wing']['control']['mix'] = {}
    w = ck.world(d0)
    a, b = from_file(w, d0), from_file(w, d1)
    aero, ctl = w.aero(), w.ctl()
    r = [w.do(w.call(w.attr('machup', 'LLModel'), ap).val, 'solve', string('linear'), aero, ctl) for ap in (a, b)]
    ck.same_dict('no control surface', w, r[0].val, r[1].val, DEFAULT)


def wing_kwargs(w):
    A = lambda k: atom('wing.' + k)
    return {'position': w.I.new_list([A('dx'), A('dy'), A('dz')]), 'is_main': num(0), 'yoffset': A('yoffset'), 'semispan': A('span'), 'sweep': A('sweep'),
            'dihedral': A('dihedral'), 'mount_angle': A('mount'), 'washout': A('washout'), 'root_chord': A('croot'), 'tip_chord': A('ctip'),
            'grid': atom('int:wing.grid')}


def wing_in_code(w, kw, foil=None, control=None, side='both', **more):
    ap = w.call(w.attr('machup', 'Airplane')).val
    o = w.do(ap, 'add_wing', string('wing'), **dict(kw, **more)).val
    if foil is not None:
        w.do(o, 'airfoil', string('f'), *foil[0], **foil[1])
    if control is not None:
        w.do(o, 'control_surface', **control)
    return w.call(w.attr('machup', 'LLGrid'), ap).val


def grids_equal(ck, w, name, a, b, rule=DEFAULT):
    from .c11 import GRID
    done = set()
    for m, i, k in GRID:
        if m in done or not has(w, a, m):
            continue
        done.add(m)
        same(ck, w, '%s, %s' % (name, m[4:]), w.do(a, m), w.do(b, m), rule)


def wing_defaults(ck):
    w = ck.world()
    I = w.I
    kw = wing_kwargs(w)
    for k, d in (('position', I.new_list([num(0)] * 3)), ('is_main', num(1)), ('yoffset', num(0)), ('semispan', num(4)), ('sweep', num(0)),
                 ('dihedral', num(0)), ('mount_angle', num(0)), ('washout', num(0)), ('root_chord', num(1)), ('tip_chord', kw['root_chord']), ('grid', num(40))):
        less = {x: y for x, y in kw.items() if x != k}
        grids_equal(ck, w, 'wing without ' + k, wing_in_code(w, less), wing_in_code(w, dict(kw, **{k: d})))
    grids_equal(ck, w, 'wing without side', wing_in_code(w, kw), wing_in_code(w, kw, side=string('both')))
    grids_equal(ck, w, 'wing without connection', wing_in_code(w, kw), wing_in_code(w, kw, connect_to=tuple([NONE, string('tip')])))
    naca = {k: num(v) for k, v in (('alpha_L0', '-0.0369'), ('CL_alpha', '6.2832'), ('CL_max', '1.4'), ('Cm_L0', '-0.0527'), ('Cm_alpha', '-0.08'),
                                   ('CD0', '0.0055'), ('CD0_L', '-0.0045'), ('CD0_L2', '0.01'))}
    grids_equal(ck, w, 'wing without airfoil', wing_in_code(w, kw), wing_in_code(w, kw, ((string('both'),), naca)))
    own = {k: atom('wing.af0.' + k) for k in FO}
    both = ((string('both'),), own)
    grids_equal(ck, w, 'airfoil without end', wing_in_code(w, kw, ((), own)), wing_in_code(w, kw, both))
    c = {'percent_span': tuple([atom('wing.cs0'), atom('wing.cs1')]), 'percent_chord': tuple([atom('wing.cc0'), atom('wing.cc0')]),
         'mix': I.new_dict({'aileron': (TRUE, atom('wing.mixa')), 'flap': (TRUE, atom('wing.mixf'))}), 'sealed': TRUE}
    full = wing_in_code(w, kw, both, c)
    grids_equal(ck, w, 'control surface without seal setting', wing_in_code(w, kw, both, {k: v for k, v in c.items() if k != 'sealed'}), full)
    grids_equal(ck, w, 'control surface of one chord ratio', wing_in_code(w, kw, both, dict(c, percent_chord=atom('wing.cc0'))), full)
    mix = I.new_dict({'aileron': (TRUE, atom('wing.mixa')), 'flap': (TRUE, atom('wing.mixf')), 'elevator': (TRUE, num(0)), 'rudder': (TRUE, num(0))})
    grids_equal(ck, w, 'mix without elevator and rudder', wing_in_code(w, kw, both, dict(c, mix=mix)), full)
    # root and tip given separately are independent of the order of the calls
    tip = {k: atom('wing.af1.' + k) for k in FO}
    g = []
    for seq in ((('root', own), ('tip', tip)), (('tip', tip), ('root', own)), (('both', tip), ('root', own))):
        ap = w.call(w.attr('machup', 'Airplane')).val
        o = w.do(ap, 'add_wing', string('wing'), **kw).val
        for end, pr in seq:
            w.do(o, 'airfoil', string('f' + end), string(end), **pr)
        g.append(w.call(w.attr('machup', 'LLGrid'), ap).val)
    grids_equal(ck, w, 'airfoils given tip first', g[1], g[0], ORDER)
    grids_equal(ck, w, 'root airfoil replaced', g[2], g[0], RULE)


def prop_defaults(ck):
    from .c15 import api_prop, full_dims
    w = ck.world()
    I = w.I
    S = lambda **k: I.new_dict({a: (TRUE, b) for a, b in k.items()})
    dims = full_dims(w, pitch_info=S(type=string('value'), value=atom('p1.pitch')),
                     chord_info=S(type=string('linear'), root=atom('p1.croot'), tip=atom('p1.ctip')), rot_dir=num(-1), electric_motor=S())
    foils = [('a', {k: atom('p1.af0.' + k) for k in FO})]
    for k, d in (('position', I.new_list([num(0)] * 3)), ('orientation', I.new_list([num(0)] * 2)), ('nodes', num(100)), ('diameter', num(1)),
                 ('hub_diameter', ir.mul(num('0.1'), dims['diameter'])), ('num_of_blades', num(2)), ('rot_dir', num(1)),
                 ('pitch_info', S(type=string('default'))), ('chord_info', S(type=string('default'))), ('electric_motor', S())):
        less = {x: y for x, y in dims.items() if x != k}
        ck.part('without ' + k, prop_results, ck, w, api_prop(w, less, foils), api_prop(w, dict(dims, **{k: d}), foils), ('rot_per_sec',), DEFAULT)
    naca = {k: num(v) for k, v in (('alpha_L0', '-0.0369'), ('CL_alpha', '6.2832'), ('CL_max', '1.4'), ('Cm_L0', '-0.0527'), ('Cm_alpha', '-0.08'),
                                   ('CD0', '0.0055'), ('CD0_L', '-0.0045'), ('CD0_L2', '0.01'))}
    ck.part('without airfoil', prop_results, ck, w, api_prop(w, dims, []), api_prop(w, dims, [('NACA2412', naca)]), ('rot_per_sec',), DEFAULT)
    for a, b in (('CCW', 'ccw'), ('CW', 'cw')):
        ck.part('direction ' + b, prop_results, ck, w, api_prop(w, dict(dims, rot_dir=string(b)), foils), api_prop(w, dict(dims, rot_dir=string(a)), foils),
                ('rot_per_sec',))
    for a, b in (('CCW', num(1)), ('CW', num(-1)), ('CW', num(0))):
        ck.part('direction %s in numbers' % a, prop_results, ck, w, api_prop(w, dict(dims, rot_dir=b), foils),
                api_prop(w, dict(dims, rot_dir=string(a)), foils), ('rot_per_sec',))
    ck.part('compact pitch and chord', prop_results, ck, w,
            api_prop(w, dict(dims, chord_info=S(type=string('linear'), root=atom('p1.croot'))), foils),
            api_prop(w, dict(dims, chord_info=S(type=string('linear'), root=atom('p1.croot'), tip=atom('p1.croot'))), foils), ('rot_per_sec',), DEFAULT)


def units(ck):
    for given, want in (('English', 'English'), ('english', 'English'), ('SI', 'SI'), ('si', 'SI'), (None, None)):
        w = ck.world(skel.plane(skel.W1(), [], units=given))
        ck.same('units %s' % given, w.freeze(w.do(from_file(w), 'get_units').val), w.freeze(V(w, want)), 'the declared units are those of the model')
    w = ck.world()
    ap = w.call(w.attr('machup', 'Airplane')).val
    ck.same('aircraft assembled in code', w.freeze(w.do(ap, 'get_units').val), w.freeze(NONE), DEFAULT)


def positions(ck):
    """setters: what is given is set, what is left out stays"""
    w = ck.world()
    I = w.I
    ap = w.call(w.attr('machup', 'Airplane')).val
    g = lambda: w.freeze(w.do(ap, 'get_cg_location').val)
    arr = lambda *v: w.freeze(w.call(w.specfn('wing', 'vector'), I.new_list(list(v))).val)
    ck.same('centre of gravity at first', g(), arr(num(0), num(0), num(0)), DEFAULT)
    x, y, z = (atom(k) for k in ('CGx', 'CGy', 'CGz'))
    w.do(ap, 'cg_location', x, y, z)
    ck.same('centre of gravity', g(), arr(x, y, z), RULE)
    w.do(ap, 'cg_location', y_coord=num(0))
    ck.same('centre of gravity, one coordinate zero', g(), arr(x, num(0), z), RULE)
    w.do(ap, 'cg_location', x_coord=num(0))
    ck.same('centre of gravity, x zero', g(), arr(num(0), num(0), z), RULE)
    w.do(ap, 'cg_location', x, NONE, num(0))
    ck.same('centre of gravity, z zero', g(), arr(x, num(0), num(0)), RULE)
    w.do(ap, 'cg_location', z_coord=y)
    ck.same('centre of gravity, one coordinate', g(), arr(x, num(0), y), RULE)
    # an aircraft placed somewhere carries its wings with it
    pos = [atom(k) for k in ('posx', 'posy', 'posz')]
    kw = wing_kwargs(w)
    out = []
    for p in (None, pos):
        a = w.call(w.attr('machup', 'Airplane'), position=w.call(w.specfn('wing', 'vector'), I.new_list(p)).val).val if p else w.call(w.attr('machup', 'Airplane')).val
        w.do(a, 'add_wing', string('wing'), **kw)
        out.append(w.call(w.attr('machup', 'LLGrid'), a).val)
    d = I.ewise_phi(ir.sub, w.do(out[1], 'get_control_point_pos').val, w.do(out[0], 'get_control_point_pos').val)
    sh, _ = I.arr(d)
    k = ir.iv(1)
    want = I.new_arr(sh, ir.ite(ir.eq(k, num(0)), pos[0], ir.ite(ir.eq(k, num(1)), pos[1], pos[2])))
    ck.same('aircraft position', w.freeze(d), w.freeze(want), RULE)


# --------------------------------------------------------------------- order
def reverse(d, keep=('airfoils', 'wings', 'propellers')):
    if not isinstance(d, dict):
        return d
    items = [(k, reverse(v, keep) if k not in keep else {a: reverse(b, keep) for a, b in v.items()}) for k, v in d.items()]
    return dict(reversed(items))


def keys_reversed(ck):
    doc = skel.plane(skel.W3(), [skel.prop('p1', foils=2)])
    w = ck.world(doc)
    a, b = from_file(w, doc), from_file(w, reverse(doc))
    getters(ck, w, a, b, ORDER, GETTERS + ('get_units',))
    grids_equal(ck, w, 'keys reversed', *[w.call(w.attr('machup', 'LLGrid'), ap).val for ap in (a, b)], rule=ORDER)
    prop_results(ck, w, a, b, ('J',), ORDER)


def wings_reordered(ck):
    """section data, segment by segment, of aircraft whose wings are listed in
    another order"""
    import itertools
    base = skel.plane(skel.W3(), [])
    names = list(base['wings'])
    w = ck.world(base)

    def starts(ns):
        out, at = {}, num(0)
        for n in ns:
            for s in {'both': ('left', 'right'), 'left': ('left',), 'right': ('right',)}[base['wings'][n]['side']]:
                out[s, n] = at
                at = ir.add(at, V(w, base['wings'][n]['grid']))
        return out
    at0 = starts(names)
    a = from_file(w, base)
    g0 = w.call(w.attr('machup', 'LLGrid'), a).val
    cols = ('get_control_point_pos', 'get_chord_length', 'get_section_areas', 'get_zero_lift_alpha', 'get_flap_effectiveness', 'get_max_lifts', 'get_twist',
            'get_wing_names')
    perms = [p for p in itertools.permutations(names) if list(p) != names]
    for p in (perms if ck.thorough() else perms[:1] + [tuple(reversed(names)), ('outer', 'fin', 'wing', 'tail')]):
        w.doc = dict(base, wings={n: base['wings'][n] for n in p})
        nm = 'order ' + ', '.join(p)
        o = w.call(w.attr('machup', 'Airplane'), inputfile=atom('infile', 'str'))
        if o.dead:
            ck.fail(nm, ORDER, detail='the file is rejected')
            continue
        g = w.call(w.attr('machup', 'LLGrid'), o.val).val
        # the segments come in the order of the file, or, where a parent is
        # listed later, in any order that keeps each segment's sections together
        at1 = None
        for q in [p] + [x for x in itertools.permutations(names) if x != p]:
            t = starts(q)
            got = w.do(g, 'get_wing_names').val
            if all(ck.verdict(w.freeze(w.I.get_item(got, i)), string('%s_%s' % k))[0] == 'same' for k, i in t.items()):
                at1 = t
                break
        if at1 is None:
            ck.fail(nm, ORDER, detail='not every segment is part of the model')
            continue
        j = atom('int:sect')
        for c in cols:
            x, y = w.do(g0, c).val, w.do(g, c).val
            for k in at0:
                n = V(w, base['wings'][k[1]]['grid'])
                under = and_(not_(ir.lt(j, num(0))), ir.lt(j, n))
                e, f = w.freeze(w.I.get_item(y, ir.add(at1[k], j))), w.freeze(w.I.get_item(x, ir.add(at0[k], j)))
                ck.same('%s, %s, %s_%s' % (nm, c[4:], k[0], k[1]), e, f, ORDER, under)
        getters(ck, w, o.val, a, ORDER)
        same(ck, w, nm + ', reference area', w.do(g, 'get_reference_area'), w.do(g0, 'get_reference_area'), ORDER)


def props_reordered(ck):
    p1, p2 = skel.prop('p1'), skel.prop('p2', motor=False, rot='CW')
    doc = skel.plane([], [p1, p2])
    rev = dict(doc, propellers={'prop2': p2, 'prop1': p1})
    w = ck.world(doc)
    a, b = from_file(w, doc), from_file(w, rev)
    aero = w.aero()
    S = lambda k, n='J': w.state('ps.' + k, (n,))
    ps = w.I.new_dict({'prop1': (TRUE, S('1')), 'prop2': (TRUE, S('2', 'rot_per_sec'))})
    out = []
    for ap in (a, b):
        s = w.call(w.attr('machup', 'PropsSolver'), ap, P.points(w, 'p1')).val
        o = w.do(s, 'solve', aero, ps)
        fm = P.asdict(w, o.val[0])
        out.append(({k: w.freeze(v[1]) for k, v in P.asdict(w, fm['total'][1]).items()},
                    [w.I.arr(w.I.get_item(o.val[1], (SliceV(NONE, NONE, NONE), num(k))))[1] for k in range(4)]))
    (t, v), (u, x) = out
    for k in t:
        ck.same('total ' + k, t[k], u[k], ORDER)
    n = atom('int:npts')
    for k in range(4):
        wr = lambda y: w.freeze(w.I.new_arr((n,), y))
        ck.same('stream %s' % ('density', 'x', 'y', 'z')[k], wr(v[k]), wr(x[k]), ORDER)
