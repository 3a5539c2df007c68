"""Surface export.  The mesh handed to the STL writer is one array over facets,
corners and components; the nested loops that fill it are closed into an
expression of the facet's number (each pass writes its own block of facets), so
one comparison covers every facet, every outline point and every grid size.
The reference (spec/stl.py) lists the facets the aircraft must have."""
from .common import *
from . import c05

RULE = 'every facet of the exported surface joins neighbouring section outlines of the aircraft'


def renamed(part, names):
    af = list(part['airfoils'].values())
    part['airfoils'] = dict(zip(names, af))
    return part


def check(ck):
    one, both = ['NACA2412'], ['NACA4415', 'NACA0009']
    wings = {
        'right wing': [renamed(skel.wing('wing', 1, 'right', foils=2), both)],
        'left wing': [renamed(skel.wing('wing', 1, 'left', foils=2), both)],
        'both sides': [renamed(skel.wing('wing', 1, 'both', foils=2), ['naca0012', 'NACA6309'])],
        'one airfoil': [renamed(skel.wing('wing', 1, 'both', foils=1), one)],
        'unnamed airfoils': [renamed(skel.wing('wing', 1, 'both', foils=2), ['Clark Y', 'NACA23012'])],
        'three wings': [renamed(skel.wing('wing', 1, 'both', foils=2), both),
                        renamed(skel.wing('outer', 2, 'both', 1, 'tip', foils=1), one),
                        renamed(skel.wing('fin', 3, 'left', foils=2), ['NACA0006', 'flat'])],
    }
    props = {
        'CCW': [blades(renamed(skel.prop('p1', foils=1), one), 2)],
        'CW': [blades(renamed(skel.prop('p1', foils=1, rot='CW'), ['NACA4412']), 2)],
        'three blades': [blades(renamed(skel.prop('p1', foils=2), both), 3)],
        'elliptical blades': [blades(renamed(skel.prop('p1', foils=2, rot='CW', pitch='ratio+', chord='elliptical'), ['naca2410', 'blade']), 2)],
        'two propellers': [blades(renamed(skel.prop('p1', foils=1), one), 3), blades(renamed(skel.prop('p2', foils=1, rot='CW'), ['NACA0012']), 2)],
    }
    if ck.thorough():
        for p in ('default', 'value', 'from_file'):
            for c in ('default', 'linear', 'from_file'):
                props['pitch %s, chord %s' % (p, c)] = [blades(renamed(skel.prop('p1', foils=2, pitch=p, chord=c), both), 2)]
        props['four blades'] = [blades(renamed(skel.prop('p1', foils=2, rot='CW'), both), 4)]
    for label, ws in wings.items():
        ck.part(label, export, ck, skel.plane(ws, []), string('a.stl'))
    for label, ps in props.items():
        ck.part(label, export, ck, skel.plane([], ps), string('a.stl'))
    for label, ws, ps in (('wing and propeller', 'both sides', 'CCW'), ('wings and propellers', 'three wings', 'two propellers')):
        ck.part(label, export, ck, skel.plane(wings[ws], props[ps]), string('b.stl'))
    ck.part('default name', export, ck, skel.plane(wings['both sides'], props['CW']), None)
    ck.part('after a solution', export, ck, skel.plane(wings['both sides'], props['CCW']), string('a.stl'), True)


def blades(p, n):
    p['num_of_blades'] = n
    return p


def export(ck, doc, name, warm=False):
    w = ck.world(doc)
    w.spec('wing')
    w.spec('prop')
    mu = w.machup()
    if warm:
        w.do(mu, 'solve', w.aero(), w.ctl(), w.pstate())
    files = c05.files(w)
    o = w.do(mu, 'create_stl', *([name] if name is not None else []))
    ck.crashes(w, o)
    if o.dead:
        return ck.fail('export', RULE, o.loc if hasattr(o, 'loc') else None, detail='no normal return')
    path = name if name is not None else string('plane.stl')
    now = c05.files(w)
    got = now.get(path)
    ck.count('files')
    if got is None or got.op != 'stl':
        return ck.fail('file', RULE, got.loc if got is not None else None, got, detail='%s is not a surface file' % path.args[0])
    ck.ok('file')
    for k, v in now.items():
        if k is not path and files.get(k) is not v:
            ck.fail('other file', RULE, v.loc, v, detail='export also writes %s' % ir.show(k, 2))
    r = w.call(w.specfn('stl', 'mesh'), skel.build(w.I, doc))
    ref = w.freeze(r.val)
    ck.count('wings', len(doc.get('wings', ())))
    ck.count('blades', sum(p['num_of_blades'] for p in doc.get('propellers', {}).values()))
    ck.same('surface', got.args[0], ref, RULE)
