"""Demand for undefined storage: the condition under which the value of a graph
needs an element that nothing has assigned."""
import itertools
from . import ir
from .ir import and_, or_, not_, FALSE, TRUE, Node


def demands(root):
    """conditions (disjuncts) under which root reads an undefined element"""
    order, seen, stack = [], set(), [(root, False)]
    while stack:
        n, done = stack.pop()
        if done:
            order.append(n)
            continue
        if n in seen or not n.flags & ir.F_UNINIT:
            continue
        seen.add(n)
        stack.append((n, True))
        for a in n.args:
            if type(a) is Node:
                stack.append((a, False))
    pc = {root: TRUE}
    for n in reversed(order):
        c = pc.get(n, FALSE)
        if c is FALSE:
            continue

        def need(x, k):
            if type(x) is Node and x.flags & ir.F_UNINIT:
                pc[x] = or_(pc.get(x, FALSE), k)
        a = n.args
        if n.op == 'ite':
            need(a[0], c)
            need(a[1], and_(c, a[0]))
            need(a[2], and_(c, not_(a[0])))
        elif n.op == 'and':
            need(a[0], c)
            need(a[1], and_(c, a[0]))
        elif n.op == 'or':
            need(a[0], c)
            need(a[1], and_(c, not_(a[0])))
        else:
            for x in a:
                need(x, c)
    return pc.get(ir.UNINIT, FALSE)


def atoms_of(c, out, seen):
    if c in seen:
        return
    seen.add(c)
    if c.op in ('and', 'or', 'not') or (c.op == 'ite' and boolean(c.args[1])):
        for a in c.args:
            atoms_of(a, out, seen)
    elif c.op != 'b':
        out.append(c)


def boolean(n):
    return n.op in ('and', 'or', 'not', 'lt', 'eq', 'b', 'has', 'truth') or (n.op == 'ite' and boolean(n.args[1]) and boolean(n.args[2]))


def value(c, m):
    if c.op == 'b':
        return c.args[0]
    if c in m:
        return m[c]
    a = c.args
    if c.op == 'not':
        return not value(a[0], m)
    if c.op == 'and':
        return value(a[0], m) and value(a[1], m)
    if c.op == 'or':
        return value(a[0], m) or value(a[1], m)
    if c.op == 'ite':
        return value(a[1] if value(a[0], m) else a[2], m)
    raise KeyError(c)


def tie(V, F, facts, rounds=40):
    """An undefined element is needed where two quantities are equal.  Do they
    meet, and does everything else that is known there hold at that point?
    (bisection between sample points where they are ordered differently)"""
    import numpy as np
    for k in [k for k in facts if type(k) is tuple and set(facts[k]) == {0}]:
        x, y = F.rep[k[0]], F.rep[k[1]]
        rest = [(q, s) for q, s in facts.items() if q != k and len(s) < (3 if type(q) is tuple else 2)]
        nodes = [x, y] + [n for q, s in rest for n in ((F.rep[q[0]], F.rep[q[1]]) if type(q) is tuple else (q,))]
        if max(depth(n) for n in nodes) > 1:
            continue
        env, atoms, seen = {}, [], set()
        pairs = []
        for n in nodes:
            for l in n.leaves:
                if l.op == 'bound':
                    pairs.append((l, np.arange(V.R) % 3 + V.zero))
            for a in ir.walk(n, seen):
                if a.op == 'atom' and a.args[1] == 'num' and not a.args[0].startswith('int:'):
                    atoms.append(a)
        if not atoms:
            continue
        V.scan(*nodes)
        saved = dict(V.overrides)
        try:
            def d():
                e = V.bindenv(env, pairs)
                return V.ev(x, e) - V.ev(y, e)
            v = d()
            ok = np.isfinite(v)
            t, f = np.nonzero(ok & (v < 0))[0], np.nonzero(ok & (v > 0))[0]
            if not len(t) or not len(f):
                continue
            R = V.R
            ti, fi = t[np.arange(R) % len(t)], f[(np.arange(R) // max(1, len(t)) + np.arange(R)) % len(f)]
            base = {a: V.ev(a, {}) for a in atoms}
            lo, hi = np.zeros(R, dtype=v.dtype), np.ones(R, dtype=v.dtype)

            def at(s):
                V.memo.clear()
                for a in atoms:
                    V.overrides[a] = base[a][ti] + s * (base[a][fi] - base[a][ti])
            at(lo)
            c0 = d() < 0
            at(hi)
            use = c0 != (d() < 0)
            for _ in range(rounds):
                mid = (lo + hi) / 2
                at(mid)
                m = (d() < 0) == c0
                lo, hi = np.where(m, mid, lo), np.where(m, hi, mid)
            at((lo + hi) / 2)
            e = V.bindenv(env, pairs)
            p, q = V.ev(x, e), V.ev(y, e)
            good = use & np.isfinite(p - q) & (np.abs(p - q) <= 1e-6 * (np.abs(p) + np.abs(q) + 1e-6))
            for c, s in rest:
                if type(c) is tuple:
                    g = np.sign(V.ev(F.rep[c[0]], e) - V.ev(F.rep[c[1]], e))
                    good &= np.isin(g, list(s))
                else:
                    good &= (V.ev(c, e) != 0) == (True in s)
            if good.any():
                return x, y
        except KeyError:
            continue
        finally:
            V.overrides = saved
            V.memo.clear()
    return None


class Facts(object):
    """what is known of the order of pairs of quantities, and of other
    conditions, where a node is needed: {key: allowed outcomes}"""

    def __init__(self, G):
        self.G = G
        self.ids = {}
        self.rep = {}
        self.leaves = {}
        self.proj = {}

    def quantity(self, n):
        k = ('n', n.id) if n.leaves else self.G.ev(n, {}).tobytes()
        r = self.ids.setdefault(k, len(self.ids))
        self.leaves.setdefault(r, n.leaves)
        self.rep.setdefault(r, n)
        return r

    def key(self, x):
        """(key, outcomes for which x is true, all outcomes)"""
        if x.op in ('lt', 'eq'):
            i, j = self.quantity(x.args[0]), self.quantity(x.args[1])
            if i == j:
                return (i, j), {0} if x.op == 'eq' else set(), {0}
            s = 1
            if i > j:
                i, j, s = j, i, -1
            return (i, j), {-s} if x.op == 'lt' else {0}, {-1, 0, 1}
        return x, {True}, {True, False}

    def project(self, c, pol):
        """the outcomes of every single condition that c = pol leaves open"""
        r = self.proj.get((c, pol))
        if r is not None:
            return r
        out = []
        if (c.op == 'and') == pol and c.op in ('and', 'or'):
            r = self.meet_all(self.project(c.args[0], pol), self.project(c.args[1], pol))
        elif c.op == 'not':
            r = self.project(c.args[0], not pol)
        else:
            atoms_of(c, out, set())
            keys, full = {}, {}
            for x in out:
                k, t, a = self.key(x)
                keys[x] = (k, t)
                full[k] = a
            if len(full) > 5:
                r = {}
            else:
                ks = sorted(full, key=repr)
                r = {k: set() for k in ks}
                for v in itertools.product(*[sorted(full[k]) for k in ks]):
                    at = dict(zip(ks, v))
                    if value(c, {x: at[k] in t for x, (k, t) in keys.items()}) == pol:
                        for k in ks:
                            r[k].add(at[k])
                r = {k: frozenset(s) for k, s in r.items()}
        self.proj[(c, pol)] = r
        return r

    def meet_all(self, a, b):
        if a is None or b is None:
            return None
        r = dict(a)
        for k, s in b.items():
            r[k] = r[k] & s if k in r else s
        return r

    def known(self, f, c):
        """c in every point the facts allow: True, False or None"""
        if c.op == 'b':
            return c.args[0]
        if c.op == 'not':
            r = self.known(f, c.args[0])
            return None if r is None else not r
        if c.op in ('and', 'or'):
            x, y = self.known(f, c.args[0]), self.known(f, c.args[1])
            stop = c.op == 'or'
            if x is stop or y is stop:
                return stop
            return None if x is None or y is None else not stop
        if c.op == 'ite':
            x = self.known(f, c.args[0])
            y, z = self.known(f, c.args[1]), self.known(f, c.args[2])
            return y if x is True or y is z else z if x is False else None
        k, t, a = self.key(c)
        s = f.get(k, a)
        return True if set(s) <= set(t) else False if not set(s) & set(t) else None

    def assume(self, f, c, pol):
        """None: impossible"""
        v = self.known(f, c)
        if v is (not pol):
            return None
        if v is pol:
            return f
        if c.op == 'not':
            return self.assume(f, c.args[0], not pol)
        if c.op in ('and', 'or'):
            x, y = c.args
            if (c.op == 'and') == pol:
                f = self.assume(f, x, pol)
                return None if f is None else self.assume(f, y, pol)
            # one side settled: the other one decides
            if self.known(f, x) is (not pol):
                return self.assume(f, y, pol)
            if self.known(f, y) is (not pol):
                return self.assume(f, x, pol)
        r = self.meet_all(f, self.project(c, pol))
        return None if r is None or any(not s for s in r.values()) else r

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return {k: a[k] | b[k] for k in a if k in b}

    def leave(self, f, level):
        def about(k):
            ls = k.leaves if type(k) is Node else self.leaves[k[0]] | self.leaves[k[1]]
            return any(x.op == 'bound' and x.args[0] == level for x in ls)
        return {k: s for k, s in f.items() if not about(k)}


def depth(root):
    """nesting of iterations"""
    order, seen, stack = [], set(), [(root, False)]
    d = {}
    while stack:
        n, done = stack.pop()
        if done:
            d[n] = (n.op == 'loopval') + max([d[a] for a in n.args if type(a) is Node] or [0])
            continue
        if n in seen:
            continue
        seen.add(n)
        stack.append((n, True))
        stack.extend((a, False) for a in n.args if type(a) is Node)
    return d[root]


def guarded(root, G, open_=None):
    """must-analysis over the graph: what is known wherever a node is needed
    excludes every undefined element"""
    G.scan(root)
    F = Facts(G)
    if open_ is not None:
        open_.append(F)
    order, seen, stack = [], set(), [(root, False)]
    while stack:
        n, done = stack.pop()
        if done:
            order.append(n)
            continue
        if n in seen or not n.flags & ir.F_UNINIT:
            continue
        seen.add(n)
        stack.append((n, True))
        for a in n.args:
            if type(a) is Node:
                stack.append((a, False))
    at = {root: {}}
    ok = True
    for n in reversed(order):
        f = at.get(n)
        if f is None:
            continue
        if n is ir.UNINIT:
            return False

        def need(x, g):
            nonlocal ok
            if type(x) is not Node or not x.flags & ir.F_UNINIT or g is None:
                return
            if x is ir.UNINIT:
                ok = False
                if open_ is not None:
                    open_.append((n, g))
                return
            at[x] = g if x not in at else F.join(at[x], g)
        a = n.args
        if n.op == 'ite':
            need(a[0], f)
            need(a[1], F.assume(f, a[0], True))
            need(a[2], F.assume(f, a[0], False))
        elif n.op in ('and', 'or'):
            need(a[0], f)
            need(a[1], F.assume(f, a[0], n.op == 'and'))
        else:
            if n.op in ir.BINDERS:
                f = F.leave(f, n.args[0])
            for x in a:
                need(x, f)
        if not ok and open_ is None:
            return False
    return ok
