"""Section profile drag, pitching moment and the total wing load.  Value
graphs of section_CD_parasitic, section_Cm, the viscous forces, the moments
about the centre of gravity and the total force and moment components are
compared with the reference (spec/wing.py)."""
from .common import *
from . import wingcmp

RULE = 'profile drag, section moments and the moments about the centre of gravity follow the section polars and the section loads'
ALL = ('FL', 'FD', 'FS', 'FX', 'FY', 'FZ', 'MX', 'MY', 'MZ')


def check(ck):
    wingcmp.run(ck, cmp)


def cmp(ck, w, q, dist=None, total=None, parts=None):
    if dist is not None:
        for c in ('section_CD_parasitic', 'section_Cm'):
            present(ck, dist, c)
            ck.same(c, w.freeze(dist[c][1]), w.freeze(q[c][1]), RULE)
    if total is not None:
        r = w.dict_items(q['total'][1])
        for k in ALL:
            present(ck, total, k)
            ck.same('total ' + k, w.freeze(total[k][1]), w.freeze(r[k][1]), RULE)
    if parts is not None:
        for part, keys in (('viscous', ALL), ('inviscid', ALL[6:]), ('total', ALL)):
            present(ck, parts, part)
            p, r = w.dict_items(parts[part][1]), w.dict_items(q[part][1])
            for k in keys:
                present(ck, p, k)
                ck.same(part + ' ' + k, w.freeze(p[k][1]), w.freeze(r[k][1]), RULE)
