"""Lifting-line section geometry.  The value graph of every section column
returned by distributions() and by the accessors of the section grid (control
and corner points, chords, areas, unit vectors, twist, airfoil data at both
ends, stall limit, control-surface data, reference area) is compared with the
one of a reference description (spec/wing.py), for every skeleton airplane, all
its dimensions, angles, chords and numbers of sections being unknowns, with
cosine and with even spacing."""
from .. import skel
from .common import *


COLS = (('control_points', 'cp'), ('chord', 'chord'), ('twist', 'twist'), ('dihedral', 'dihedral'), ('sweep', 'sweep'),
        ('area', 'area'), ('section_alpha_L0', 'al0'), ('name', 'name'))
RULE = 'section data follow the airplane description'
# accessor, index in its result, entry of the reference
GRID = (('get_wing_names', None, 'name'), ('get_control_point_pos', None, 'cp'), ('get_corner_point_pos', 0, 'p1'), ('get_corner_point_pos', 1, 'p2'),
        ('get_cp_spacing', None, 's'), ('get_lift_slopes', None, 'cla'), ('get_left_lift_slopes', None, 'cla_l'), ('get_right_lift_slopes', None, 'cla_r'),
        ('get_max_lifts', None, 'clmax'), ('get_left_drag_coeff', 0, 'cd0_l'), ('get_left_drag_coeff', 1, 'cd1_l'), ('get_left_drag_coeff', 2, 'cd2_l'),
        ('get_right_drag_coeff', 0, 'cd0_r'), ('get_right_drag_coeff', 1, 'cd1_r'), ('get_right_drag_coeff', 2, 'cd2_r'),
        ('get_moment_slopes', 0, 'cma'), ('get_moment_slopes', 1, 'cm0'), ('get_moment_slopes', 2, 'cmd'), ('get_left_moment_slopes', None, 'cma_l'), ('get_right_moment_slopes', None, 'cma_r'),
        ('get_left_zero_lift_moments', None, 'cm0_l'), ('get_right_zero_lift_moments', None, 'cm0_r'),
        ('get_chord_length', None, 'chord'), ('get_chord_lengths', 0, 'c1'), ('get_chord_lengths', 1, 'c2'), ('get_integral_chord2', None, 'c2ds'),
        ('get_section_areas', None, 'area'), ('get_reference_area', None, 'main_area'), ('get_unit_axial_vectors', None, 'ua'),
        ('get_unit_normal_vectors', None, 'un'), ('get_unit_spanwise_vectors', None, 'us'), ('get_flap_effectiveness', None, 'flap'),
        ('get_zero_lift_alpha', None, 'al0'), ('get_left_zero_lift_alpha', None, 'al0_l'), ('get_right_zero_lift_alpha', None, 'al0_r'),
        ('get_twist', None, 'twist'), ('get_sweep', None, 'sweep'), ('get_dihedral', None, 'dihedral'),
        ('get_control_mix', 0, 'ma'), ('get_control_mix', 1, 'me'), ('get_control_mix', 2, 'mr'), ('get_control_mix', 3, 'mf'), ('get_cg_location', None, 'cg'))


def check(ck):
    skels = [('three wings and a fin', skel.W3()), ('wing and left fin', skel.Wleft()), ('single wing', skel.W1())]
    for name, wings in skels:
        ck.part(name, one, ck, wings)
    for name, wings in skels:
        for cosine in (True, False):
            ck.part('section grid of %s, %s spacing' % (name, 'cosine' if cosine else 'even'), grid, ck, skel.plane(wings, []), cosine)


def one(ck, wings):
    doc = skel.plane(wings, [])
    w = ck.world(doc)
    mu = w.machup()
    o = w.do(mu, 'distributions', w.aero(), w.ctl())
    wd = w.dict_items(w.I.get_item(o.val, num(0)))
    g = w.call(w.specfn('wing', 'sections'), skel.build(w.I, doc))
    gd = w.dict_items(g.val)
    for col, ref in COLS:
        present(ck, wd, col)
        ck.same(col, w.freeze(wd[col][1]), w.freeze(gd[ref][1]), 'section column "%s" follows the airplane description' % col)


def grid(ck, doc, cosine):
    w = ck.world(doc)
    ap = w.call(w.attr('machup', 'Airplane'), inputfile=atom('infile', 'str')).val
    kw = {} if cosine else {'cosine_spacing': FALSE}
    accessors(ck, w, w.call(w.attr('machup', 'LLGrid'), ap, **kw).val, doc, cosine)


def accessors(ck, w, g, doc, cosine=True, rule=RULE, skip=()):
    ref = w.dict_items(w.call(w.specfn('wing', 'grid_data'), skel.build(w.I, doc), ir.TRUE if cosine else FALSE).val)
    done = {}
    for m, i, k in GRID:
        if m in skip:
            continue
        name = m[4:] + ('' if i is None else '[%d]' % i)
        if m not in done:
            if not has(w, g, m):
                ck.undec(name, 'no accessor %s' % m)
                continue
            done[m] = w.do(g, m)
        v = done[m].val
        if done[m].dead:
            ck.fail(name, rule, detail='always raises')
            continue
        ck.same(name, w.freeze(v if i is None else w.I.get_item(v, num(i))), w.freeze(ref[k][1]), rule)
