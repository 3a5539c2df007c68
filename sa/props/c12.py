"""Circulation and inviscid loads.  The value graphs of the section angle of
attack, lift coefficient and force, and of the inviscid force components
returned by the lifting-line model, are compared with those of the reference
statement of the linear numerical lifting-line method (spec/wing.py): vortex
influence, linear system, vortex-force law and wind-axis resolution."""
from .common import *
from . import wingcmp

RULE = 'circulation solves the lifting-line system and the inviscid load is rho*gamma*(V x dl), resolved in wind axes'


def check(ck):
    wingcmp.run(ck, cmp)


def cmp(ck, w, q, dist=None, total=None, parts=None):
    if dist is not None:
        for c in ('alpha', 'section_CL', 'forces_xyz'):
            present(ck, dist, c)
            ck.same(c, w.freeze(dist[c][1]), w.freeze(q[c][1]), RULE)
    if parts is not None:
        present(ck, parts, 'inviscid')
        p, r = w.dict_items(parts['inviscid'][1]), w.dict_items(q['inviscid'][1])
        for k in ('FL', 'FD', 'FS', 'FX', 'FY', 'FZ'):
            present(ck, p, k)
            ck.same('inviscid ' + k, w.freeze(p[k][1]), w.freeze(r[k][1]), RULE)
