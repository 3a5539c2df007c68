from .. import skel, ir
from ..ir import num, string, atom, raw, TRUE, FALSE, NONE, and_, or_, not_, Node
from ..world import AnchorLost, AERO, CTL, Stop
from ..heap import Ref, Obj, conj


def wing_skeletons(ck):
    out = [('three wings and a fin', skel.W3()), ('wing and left fin', skel.Wleft())]
    if ck.thorough():
        out.append(('single wing', skel.W1()))
    return out


def present(ck, d, k):
    if d is None or k not in d or d[k][0] is FALSE:
        ck.fail('result key ' + k, 'documented entry "%s" is part of the result' % k)
        raise Stop()


def has(w, v, name):
    """does the object have this method?"""
    return w.I.find_method(v, name) is not None
