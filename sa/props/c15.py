"""Propeller blade geometry and section data.  Radial stations, chord and
aerodynamic pitch angle reported for every kind of pitch and chord law, and the
section lift, lift slope and drag as functions of an arbitrary angle of attack,
are compared with the reference statement (spec/prop.py) of the description's
meaning, Corrigan's stall delay and Viterna's post-stall law."""
from .common import *
from . import propcmp as P

RULE = 'blade geometry follows the propeller description'
RULE2 = 'section lift and drag follow the linear law, rotational stall delay and the blended post-stall law'


def check(ck):
    for name, kw in P.KINDS:
        ck.part(name, kind, ck, kw)
    ck.part('airfoils with stations', stations, ck)
    ck.part('defaults of the construction interface', api_defaults, ck)


def kind(ck, kw):
    doc = skel.plane([], [skel.prop('p1', **kw)])
    w = ck.world(doc)
    mu = w.machup()
    aero, ps = w.aero(), w.pstate('J')
    o = w.do(mu, 'distributions', aero, w.ctl(), ps)
    d = P.asdict(w, w.I.get_item(o.val, num(1)))
    g = w.dict_items(w.call(w.specfn('prop', 'geometry'), P.prop_dict(w, doc)).val)
    compare(ck, w, d, g)
    s = P.solver(w)
    pm = w.I.get_item(w.do(s, 'get_prop_models').val, num(0))
    sections(ck, w, pm, g)


def compare(ck, w, d, g):
    for col, ref, deg in (('radial_position', 'r', 0), ('chord', 'chord', 0), ('pitch', 'beta', 1)):
        present(ck, d, col)
        b = g[ref][1]
        if deg:
            b = P.degrees(w, b)
        ck.same(col, w.freeze(d[col][1]), w.freeze(b), RULE)


def sections(ck, w, pm, g):
    """section coefficients at arbitrary angles of attack"""
    sh, _ = w.I.arr(g['zeta'][1])
    a = w.I.new_arr(sh, raw('get', atom('alpha_sec', 'arr'), ir.iv(0)))
    r = w.do(pm, 'get_coefficients_alpha', a)
    if r.dead:
        ck.fail('section coefficients', RULE2, detail='always raises')
        return
    geo = w.I.new_dict({k: v for k, v in g.items()})
    cl = w.call(w.specfn('prop', 'lift'), geo, a).val
    cd = w.call(w.specfn('prop', 'drag'), geo, a, cl).val
    ck.same('section CL', w.freeze(w.I.get_item(r.val, num(0))), w.freeze(cl), RULE2)
    ck.same('section CD', w.freeze(w.I.get_item(r.val, num(2))), w.freeze(cd), RULE2)
    up = w.call(w.specfn('prop', 'lift'), geo, w.I.ewise_phi(ir.add, a, num('0.001'))).val
    dn = w.call(w.specfn('prop', 'lift'), geo, w.I.ewise_phi(ir.sub, a, num('0.001'))).val
    sl = w.I.ewise_phi(lambda x, y: ir.div(ir.sub(x, y), num('0.002')), up, dn)
    ck.same('section lift slope', w.freeze(w.I.get_item(r.val, num(1))), w.freeze(sl), RULE2)


API = {'position': None, 'orientation': None}


def api_prop(w, dims, foils):
    """propeller assembled through the construction interface"""
    I = w.I
    ap = w.call(w.attr('machup', 'Airplane')).val
    p = w.do(ap, 'add_prop', string('p1'), **dims).val
    for nm, kw in foils:
        w.do(p, 'airfoil', string(nm), **kw)
    return ap


FO = ('alpha_L0', 'CL_alpha', 'Cm_L0', 'Cm_alpha', 'CD0', 'CD0_L', 'CD0_L2', 'CL_max')


def full_dims(w, pfx='p1', **over):
    I = w.I
    A = lambda k: atom('%s.%s' % (pfx, k))
    d = {'position': I.new_list([A('dx'), A('dy'), A('dz')]), 'orientation': I.new_list([A('elev'), A('head')]),
         'nodes': atom('int:%s.nodes' % pfx), 'diameter': A('d'), 'hub_diameter': A('hd'), 'num_of_blades': atom('int:%s.k' % pfx), 'rot_dir': num(1)}
    d.update(over)
    return d


def stations(ck):
    """three airfoils given out of order, the ends by name"""
    w = ck.world()
    foils = []
    spec = {}
    for nm, pos in (('B', num('0.7')), ('C', string('tip')), ('A', string('root'))):
        pr = {k: atom('p1.f%s.%s' % (nm, k)) for k in FO}
        spec[nm] = pr
        foils.append((nm, dict(pr, span_position=pos)))
    I = w.I
    pitch = I.new_dict({'type': (TRUE, string('ratio')), 'value': (TRUE, atom('p1.pitch'))})
    chord = I.new_dict({'type': (TRUE, string('linear')), 'root': (TRUE, atom('p1.croot'))})
    ap = api_prop(w, full_dims(w, pitch_info=pitch, chord_info=chord), foils)
    s = w.call(w.attr('machup', 'PropsSolver'), ap, NONE).val
    pm = w.I.get_item(w.do(s, 'get_prop_models').val, num(0))
    af = {}
    for nm in 'ABC':
        f = {'properties': (TRUE, I.new_dict({k: (TRUE, v) for k, v in spec[nm].items()}))}
        if nm == 'B':
            f['span_position'] = (TRUE, num('0.7'))
        af[nm] = (TRUE, I.new_dict(f))
    doc = spec_doc(w, pitch, chord, I.new_dict(af))
    g = w.dict_items(w.call(w.specfn('prop', 'geometry'), doc).val)
    ck.same('zero-lift angle', w.freeze(w.do(pm, 'get_zero_lift_alpha').val), w.freeze(g['alpha_L0'][1]), RULE)
    ck.same('pitch angle', w.freeze(w.do(pm, 'get_aero_pitch_angle').val), w.freeze(g['beta'][1]), RULE)
    sections(ck, w, pm, g)


def spec_doc(w, pitch, chord, airfoils, pfx='p1', **over):
    I = w.I
    A = lambda k: atom('%s.%s' % (pfx, k))
    dd = lambda m: I.new_dict({k: (TRUE, v) for k, v in m.items()})
    d = {'position': dd({k: A(k) for k in ('dx', 'dy', 'dz')}),
         'orientation': dd({'elevation_angle': A('elev'), 'heading_angle': A('head')}),
         'radial_nodes': atom('int:%s.nodes' % pfx), 'diameter': A('d'), 'hub_diameter': A('hd'),
         'num_of_blades': atom('int:%s.k' % pfx), 'rotation_direction': string('CCW'), 'pitch': pitch, 'chord': chord, 'airfoils': airfoils}
    d.update(over)
    return dd(d)


def api_defaults(ck):
    """a propeller given nothing but its name"""
    w = ck.world()
    I = w.I
    dd = lambda m: I.new_dict({k: (TRUE, v) for k, v in m.items()})
    ap = api_prop(w, {}, [])
    s = w.call(w.attr('machup', 'PropsSolver'), ap, NONE).val
    pm = w.I.get_item(w.do(s, 'get_prop_models').val, num(0))
    f = dd({'properties': dd({'alpha_L0': num('-0.0369'), 'CL_alpha': num('6.2832'), 'CL_max': num('1.4'), 'Cm_L0': num('-0.0527'),
                              'Cm_alpha': num('-0.08'), 'CD0': num('0.0055'), 'CD0_L': num('-0.0045'), 'CD0_L2': num('0.01')})})
    dflt = dd({'type': string('default')})
    doc = spec_doc(w, dflt, dflt, dd({'NACA2412': f}), position=dd({k: num(0) for k in ('dx', 'dy', 'dz')}),
                   orientation=dd({'elevation_angle': num(0), 'heading_angle': num(0)}), radial_nodes=num(100), diameter=num(1),
                   hub_diameter=num('0.1'), num_of_blades=num(2))
    g = w.dict_items(w.call(w.specfn('prop', 'geometry'), doc).val)
    for m, k in (('get_radial_position', 'r'), ('get_chord', 'chord'), ('get_aero_pitch_angle', 'beta'), ('get_zero_lift_alpha', 'alpha_L0'),
                 ('get_num_blades', 'k'), ('get_num_nodes', 'n'), ('get_position', 'pos')):
        ck.same(m[4:], w.freeze(arrayish(w, w.do(pm, m).val)), w.freeze(g[k][1]), RULE)


def arrayish(w, v):
    try:
        sh, b = w.I.arr(v)
        return w.I.new_arr(sh, b) if sh else v
    except Exception:
        return v
