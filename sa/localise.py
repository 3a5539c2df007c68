"""Localise a difference between two value graphs: nodes of the analysed
program whose operands have the same numbers as something in the reference,
while their own number does not occur there."""
import numpy as np
from . import ir
from .ir import raw, Node
from .gvn import P


class Localiser(object):
    def __init__(self, G):
        self.G = G
        self.dims = {}
        self.seen = set()

    def learn(self, root):
        for n in ir.walk(root, self.seen):
            if n.op == 'arr':
                L, nv = n.args[:2]
                for k in range(nv):
                    self.dims.setdefault(raw('bound', L, k), (n.args[3 + k], k))
            elif n.op == 'sum':
                self.dims.setdefault(raw('bound', n.args[0], 0), (n.args[3], 0))

    def value(self, n):
        G = self.G
        env = {}
        for l in sorted(n.leaves, key=lambda x: x.id):
            d = self.dims.get(l)
            if d is None:
                return None
            dim, k = d
            if dim.leaves:
                return None
            if dim.op == 'cnt':
                dim = dim.args[0].args[3]
            try:
                s = G.samples(dim, {})
            except Exception:
                return None
            if not s:
                return None
            env = G.bindenv(env, [(l, s[(2 + k) % len(s)][0])])
        try:
            return G.ev(n, env).tobytes()
        except Exception:
            return None

    def frontier(self, code, specs, limit=12):
        self.learn(code)
        for s in specs:
            self.learn(s)
        have = set()
        seen = set()
        for s in specs:
            for n in ir.walk(s, seen):
                v = self.value(n)
                if v is not None:
                    have.add(v)
                    a = np.frombuffer(v, dtype=np.int64)
                    have.add(((P - a) % P).tobytes())
        out = []
        ok = {}

        def good(n):
            r = ok.get(n.id)
            if r is None:
                v = self.value(n)
                r = ok[n.id] = (v in have) if v is not None else None
            return r
        for n in ir.walk(code, set()):
            if n.op in ('n', 's', 'b', 'atom', 'bound', 'none'):
                continue
            if good(n) is False:
                ch = [x for x in n.args if type(x) is Node]
                if all(good(c) is not False or c.op in ('n', 'atom', 'bound') for c in ch):
                    out.append(n)
        return out
