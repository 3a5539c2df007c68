"""Abstract airplane descriptions: a JSON document whose numeric leaves are
unknowns (atoms).  Only the shape (which wings, connections, sides, number of
airfoils, kinds of pitch/chord laws) is fixed."""
from .ir import atom, NONE, TRUE, string, num, Node
from .heap import Obj


def A(name):
    return ('atom', name)


def airfoil(pfx):
    return {'properties': {k: A('%s.%s' % (pfx, k)) for k in
                           ('alpha_L0', 'CL_alpha', 'Cm_L0', 'Cm_alpha', 'CD0', 'CD0_L', 'CD0_L2', 'CL_max')} | {'type': 'linear'}}


# neither in alphabetical order nor in its reverse
FOILS = ('NACA2412', 'NACA0009', 'NACA4415')


def wing(pfx, ID, side, parent=0, loc='tip', foils=2, is_main=1, control=True, sealed=None):
    d = {'name': pfx, 'ID': ID, 'tag': '', 'show': True, 'side': side, 'is_main': is_main, 'draw': True,
         'connect': {'ID': parent, 'location': loc, 'dx': A(pfx + '.dx'), 'dy': A(pfx + '.dy'), 'dz': A(pfx + '.dz'), 'yoffset': A(pfx + '.yoffset')},
         'span': A(pfx + '.span'), 'sweep': A(pfx + '.sweep'), 'dihedral': A(pfx + '.dihedral'),
         'mounting_angle': A(pfx + '.mount'), 'washout': A(pfx + '.washout'), 'root_chord': A(pfx + '.croot'), 'tip_chord': A(pfx + '.ctip'),
         'airfoils': {}, 'grid': A('int:' + pfx + '.grid'), 'control': {}}
    for k in range(foils):
        d['airfoils'][FOILS[k]] = airfoil('%s.af%d' % (pfx, k))
    if control:
        d['control'] = {'has_control_surface': 1, 'span_root': A(pfx + '.cs0'), 'span_tip': A(pfx + '.cs1'), 'chord_root': A(pfx + '.cc0'),
                        'chord_tip': A(pfx + '.cc1'), 'is_sealed': sealed if sealed is not None else A(pfx + '.sealed'),
                        'mix': {'aileron': A(pfx + '.mixa'), 'elevator': A(pfx + '.mixe'), 'rudder': A(pfx + '.mixr'), 'flap': A(pfx + '.mixf')}}
    return d


def prop(pfx, pitch='value', chord='linear', foils=1, motor=True, rot='CCW'):
    d = {'position': {'dx': A(pfx + '.dx'), 'dy': A(pfx + '.dy'), 'dz': A(pfx + '.dz')},
         'orientation': {'elevation_angle': A(pfx + '.elev'), 'heading_angle': A(pfx + '.head')},
         'radial_nodes': A('int:' + pfx + '.nodes'), 'diameter': A(pfx + '.d'), 'hub_diameter': A(pfx + '.hd'),
         'num_of_blades': A('int:' + pfx + '.k'), 'rotation_direction': rot,
         'pitch': {'default': {'type': 'default'}, 'value': {'type': 'value', 'value': A(pfx + '.pitch')},
                   'ratio': {'type': 'ratio', 'value': A(pfx + '.pitch')},
                   'ratio+': {'type': 'ratio', 'value': A(pfx + '.pitch'), 'pitch_increment': A(pfx + '.pinc')},
                   'from_file': {'type': 'from_file', 'filename': 'pitch.txt'}}[pitch],
         'chord': {'default': {'type': 'default'}, 'linear': {'type': 'linear', 'root': A(pfx + '.croot'), 'tip': A(pfx + '.ctip')},
                   'elliptical': {'type': 'elliptical', 'root': A(pfx + '.croot')},
                   'from_file': {'type': 'from_file', 'filename': 'chord.txt'}}[chord],
         'airfoils': {}}
    for k in range(foils):
        d['airfoils'][FOILS[k]] = airfoil('%s.af%d' % (pfx, k))
    if motor:
        d['electric_motor'] = {'has_motor': True, 'motor_kv': A(pfx + '.kv'), 'motor_resistance': A(pfx + '.rm'),
                               'motor_no_load_current': A(pfx + '.io'), 'gear_reduction': A(pfx + '.gr'),
                               'battery_resistance': A(pfx + '.rb'), 'battery_voltage': A(pfx + '.eo'),
                               'speed_control_resistance': A(pfx + '.rc')}
    return d


def plane(wings=(), props=(), units='English', lat=True, lon=True):
    d = {'tag': '', 'run': '', 'metadata': {'version': 4, 'type': 'Object'},
         'plane': {'name': 'skel', 'CGx': A('CGx'), 'CGy': A('CGy'), 'CGz': A('CGz')},
         'reference': {'area': A('ref.area'), 'longitudinal_length': A('ref.long') if lon else None, 'lateral_length': A('ref.lat') if lat else None},
         'condition': {'alpha': 0, 'beta': 0, 'units': units},
         'controls': {}}
    if wings:
        d['wings'] = {w['name']: w for w in wings}
    if props:
        d['propellers'] = {'prop%d' % (k + 1): p for k, p in enumerate(props)}
    return d


def W1():
    return [wing('wing', 1, 'both', foils=2)]


def W3():
    return [wing('wing', 1, 'both', foils=2), wing('outer', 2, 'both', parent=1, loc='tip', foils=1, is_main=1),
            wing('tail', 3, 'both', foils=1, is_main=0), wing('fin', 4, 'right', foils=1, is_main=0, control=True)]


def Wleft():
    return [wing('wing', 1, 'both', foils=2), wing('fin', 2, 'left', foils=1, is_main=0)]


def build(I, d):
    """allocate the document on the abstract heap"""
    if isinstance(d, dict):
        return I.alloc(Obj('dict', {k: (TRUE, build(I, v)) for k, v in d.items()}))
    if isinstance(d, list):
        return I.new_list([build(I, x) for x in d])
    if type(d) is Node:
        return d
    if isinstance(d, tuple):
        nm = d[1]
        return atom(nm, 'num')
    if d is None:
        return NONE
    if isinstance(d, bool):
        return num(d)
    if isinstance(d, str):
        return string(d)
    return num(d)


# physically meaningful ranges of the unknowns, by the last part of their name
RANGES = {
    'span': (3, 6), 'sweep': (-10, 20), 'dihedral': (-5, 10), 'mount': (-3, 3), 'washout': (-2, 4), 'croot': (.8, 1.5), 'ctip': (.5, .8),
    'dx': (-3, 0), 'dy': (-1, 1), 'dz': (-1, 1), 'yoffset': (.1, .4),
    'alpha_L0': (-.05, -.01), 'CL_alpha': (5.5, 6.5), 'Cm_L0': (-.1, 0), 'Cm_alpha': (-.05, .05), 'CD0': (.005, .01), 'CD0_L': (-.003, .003),
    'CD0_L2': (.005, .01), 'CL_max': (1.2, 1.6),
    'cs0': (.1, .4), 'cs1': (.6, .95), 'cc0': (.15, .3), 'cc1': (.15, .3), 'mixa': (-1, 1), 'mixe': (-1, 1), 'mixr': (-1, 1), 'mixf': (-1, 1),
    'elev': (-5, 5), 'head': (-5, 5), 'd': (1., 1.6), 'hd': (.1, .3), 'pitch': (.4, .8), 'pinc': (.0, .1), 'kv': (300, 900), 'rm': (.01, .1),
    'io': (.3, 1), 'gr': (1, 3), 'rb': (.01, .05), 'eo': (10, 30), 'rc': (.001, .01),
    'area': (8, 12), 'lat': (6, 10), 'long': (1, 2), 'alpha': (-6, 9), 'beta': (-5, 5), 'V_mag': (20, 60), 'rho': (.001, .003),
    'roll_rate': (-.2, .2), 'pitch_rate': (-.2, .2), 'yaw_rate': (-.2, .2),
    'aileron': (-20, 20), 'elevator': (-20, 20), 'rudder': (-20, 20), 'flap': (-20, 20), 'J': (.3, .7), 'rot_per_sec': (20, 90),
    'electric_throttle': (.2, 1), 'brake_power': (10, 100), 'unitL': (.3, 3.3), 'unitT': (.4, 2), 'unitM': (.1, 10)}
POSITIVE = {'span', 'croot', 'ctip', 'CL_alpha', 'd', 'hd', 'V_mag', 'rho', 'kv', 'rm', 'gr', 'rb', 'eo', 'rc', 'io', 'area', 'lat', 'long',
            'J', 'rot_per_sec', 'CL_max', 'unitL', 'unitT', 'unitM', 'cs0', 'cs1', 'cc0', 'cc1', 'grid', 'nodes'}


# rarer values: steep angles, large offsets, deflections, odd proportions
WIDE = {
    'span': (.3, 30), 'sweep': (-45, 60), 'dihedral': (-90, 90), 'mount': (-20, 20), 'washout': (-15, 20), 'croot': (.1, 6), 'ctip': (.05, 6),
    'dx': (-12, 12), 'dy': (-6, 6), 'dz': (-4, 4), 'yoffset': (-1, 3), 'CGx': (-5, 5), 'CGy': (-2, 2), 'CGz': (-2, 2),
    'alpha_L0': (-.15, .1), 'CL_alpha': (1, 9), 'Cm_L0': (-.4, .3), 'Cm_alpha': (-.4, .4), 'CD0': (0, .1), 'CD0_L': (-.05, .05), 'CD0_L2': (0, .1),
    'CL_max': (.3, 3), 'cs0': (0, .48), 'cs1': (.5, 1), 'cc0': (.05, .6), 'cc1': (.05, .6), 'mixa': (-3, 3), 'mixe': (-3, 3), 'mixr': (-3, 3), 'mixf': (-3, 3),
    'elev': (-60, 60), 'head': (-120, 120), 'd': (.25, 6), 'hd': (.02, .24), 'pitch': (.1, 3), 'pinc': (-8, 12), 'kv': (50, 3000), 'rm': (.001, .5),
    'io': (.05, 5), 'gr': (.2, 8), 'rb': (.001, .3), 'eo': (3, 120), 'rc': (.0005, .1),
    'area': (1, 300), 'lat': (1, 40), 'long': (.1, 6), 'alpha': (-80, 80), 'beta': (-60, 60), 'V_mag': (.5, 400), 'rho': (.0005, 1.4),
    'roll_rate': (-4, 4), 'pitch_rate': (-4, 4), 'yaw_rate': (-4, 4),
    'aileron': (-60, 60), 'elevator': (-60, 60), 'rudder': (-60, 60), 'flap': (-60, 60), 'J': (.02, 2.5), 'rot_per_sec': (2, 400),
    'electric_throttle': (.02, 1), 'brake_power': (.1, 3000), 'k': (2, 9)}
NOZERO = {'CD0', 'CD0_L', 'CD0_L2', 'cs0', 'k'}


def wide(name):
    """(rare range, may be zero)"""
    leaf = name.rpartition('.')[2]
    if name.startswith('int:') and leaf != 'k':
        return None, False
    if name[0] == 'p' and leaf in ('croot', 'ctip'):
        return (.02, .8), False
    if name[0] == 'p' and leaf == 'CL_max':
        return (.05, 2.5), False
    w = WIDE.get(leaf)
    return w, w is not None and w[0] < 0 < w[1] and leaf not in NOZERO


def ranges(name):
    leaf = name.rpartition('.')[2]
    if name.startswith('int:'):
        return (2, 4) if leaf == 'k' else None
    if name[0] == 'p' and leaf in ('croot', 'ctip'):
        return (.08, .15)
    if name[0] == 'p' and leaf == 'CL_max':
        return (.1, 1.5)
    return RANGES.get(leaf)
