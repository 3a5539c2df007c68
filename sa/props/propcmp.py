"""propeller-model comparisons shared by C15-C18"""
from .common import *
from .. import skel
from ..world import World

KINDS = [('linear chord, pitch value', dict(pitch='value', chord='linear')),
         ('default chord and pitch', dict(pitch='default', chord='default')),
         ('elliptical chord, pitch ratio', dict(pitch='ratio', chord='elliptical')),
         ('tables', dict(pitch='from_file', chord='from_file')),
         ('pitch increment', dict(pitch='ratio+', chord='linear')),
         ('two airfoils', dict(foils=2)),
         ('clockwise', dict(rot='CW'))]
DEG = ir.div(num(180), ir.PI)


def solver(w, pts=NONE):
    ap = w.call(w.attr('machup', 'Airplane'), inputfile=atom('infile', 'str'))
    return w.call(w.attr('machup', 'PropsSolver'), ap.val, pts).val


def points(w, pfx=None):
    """arbitrary points; about a propeller they are written in diameters, far
    along and near its axis (only the sampling depends on that)"""
    body = raw('get', atom('pts', 'arr'), ir.iv(0), ir.iv(1))
    if pfx:
        A = lambda k: atom(pfx + '.' + k)
        k = ir.iv(1)
        pos = ir.ite(ir.eq(k, num(0)), A('dx'), ir.ite(ir.eq(k, num(1)), A('dy'), A('dz')))
        body = ir.add(pos, ir.mul(ir.mul(A('d'), ir.ite(ir.eq(k, num(0)), num(8), num('0.5'))), body))
    return w.I.new_arr((atom('int:npts'), num(3)), body)


def prop_dict(w, doc, k=1):
    d = skel.build(w.I, doc)
    return w.I.get_item(w.I.get_item(d, string('propellers')), string('prop%d' % k))


def cg(w, doc):
    return w.call(w.specfn('wing', 'cg_of'), skel.build(w.I, doc)).val


def stream(w, aero):
    """unit free-stream direction of a state"""
    it = w.dict_items(aero)

    def val(k):
        p, v = it[k] if k in it else (FALSE, num(0))
        return v if p is TRUE else (num(0) if p is FALSE else ir.ite(p, v, num(0)))
    return w.call(w.specfn('wing', 'free_stream'), num(1), val('alpha'), val('beta')).val


def loads(w, doc, aero, ps, k=1, units='English'):
    """reference geometry and loads of propeller k"""
    V, rho = w.I.get_item(aero, string('V_mag')), w.I.get_item(aero, string('rho'))
    o = w.call(w.specfn('prop', 'loads'), prop_dict(w, doc, k), string(units), cg(w, doc), V, rho, stream(w, aero), ps)
    return o.val[0], o.val[1], w.dict_items(o.val[0]), w.dict_items(o.val[1])


def degrees(w, v):
    return w.I.ewise_phi(ir.mul, v, DEG)


def asdict(w, v):
    d = w.dict_items(v)
    if d is None:
        raise AnchorLost('dictionary result')
    return d
