"""Second interpretation of the value graph: the operators over the reals.

The prime-field interpretation (gvn.py) has no true order and knows no
trigonometric identities, so two expressions that agree only for, say,
0 <= s1 < s2 have different numbers.  A difference is reported only when it
also shows here, where the operators are the real ones, the unknowns lie in
physically meaningful ranges, and every uninterpreted function is a fixed
smooth function (so that rounding cannot turn into a difference).
"""
from fractions import Fraction
import hashlib
import numpy as np
from . import ir
from .ir import raw, Node
from .gvn import GVN, Clo, tagh, mix, U, KMAX, SMALLN
from .arrays import linear

F = np.longdouble
HALF = F(0.5)


def unit(tag, lanes):
    """lanes of uniform numbers"""
    with np.errstate(over='ignore'):
        h = mix(lanes ^ U(tagh(tag)), lanes)
    return (h >> U(11)).astype(F) / F(1 << 53)


class RVN(GVN):
    def __init__(self, seed=1, R=32, ranges=None, wide=None):
        GVN.__init__(self, seed, R)
        self.zero = np.zeros(R, dtype=F)
        self.one = np.ones(R, dtype=F)
        self.ranges = ranges or (lambda name: None)
        self.wide = wide
        self.coef = {}
        self.jitter = 0
        self.kmax = KMAX
        self.noexit = {}        # loop -> lanes on which it was not followed to its end

    def b2f(self, c):
        return c.astype(F)

    def const(self, fr):
        return np.full(self.R, F(fr.numerator) / F(fr.denominator), dtype=F)

    def rv(self, v):
        return v

    def tok(self, val):
        if type(val) is Clo:
            key = ('c', val.node.id, self.ekey(val.node, val.env))
        else:
            key = np.asarray(val, dtype=F).astype('U40').tobytes() if val.dtype == object else repr(val.tolist())
        t = self.toks.get(key)
        if t is None:
            t = self.toks[key] = len(self.toks) + 1
        return t

    def cf(self, tag):
        c = self.coef.get(tag)
        if c is None:
            c = self.coef[tag] = unit(tag, self.lanes) * 2 - 1
        return c

    def H(self, tag, *vals):
        """a fixed smooth function of the operands"""
        tot = self.cf(('c0', tag)) + F(0.3)
        prev = None
        for k, v in enumerate(vals):
            g = np.arcsinh(v.astype(F))
            tot = tot + self.cf(('c', tag, k)) * g
            if prev is not None:
                tot = tot + HALF * self.cf(('d', tag, k)) * g * prev
            prev = g
        return tot

    def hint(self, tag, *vals):
        """lanes of hash bits of exact (integer or token) operands"""
        h = self.lanes ^ U(tagh(tag))
        with np.errstate(over='ignore'):
            h = mix(h, U(len(vals)))
            for v in vals:
                h = mix(h, np.nan_to_num(v).astype(np.int64).astype(np.uint64))
        return h

    def samples(self, dim, env):
        k = ir.int_of(dim)
        if k is not None and k <= SMALLN:
            return [(np.full(self.R, c, dtype=F), self.one, None) for c in range(k)]
        if dim.op == 'cnt' and dim.args[0].op == 'arr' and dim.args[0].args[1] == 1:
            an = dim.args[0]
            out = []
            for i, w, g in self.samples(an.args[3], env):
                e = self.bindenv(env, [(raw('bound', an.args[0], 0), i)])
                c = self.cond(an.args[2], e)
                out.append((i, w, c if g is None else (c & g)))
            return out
        d = np.rint(np.clip(np.nan_to_num(self.ev(dim, env)), 0, 1e6))
        if self.segments is not None and (d == self.ev(self.segments[0], {})).all():
            out = []
            for o, n in self.segments[1]:
                off = self.ev(o, {})
                out += [(i + off, w, g) for i, w, g in self.axis(self.ev(n, {}))]
            return out
        return self.axis(d)

    def axis(self, d):
        dd = np.where(d > 0, d, 1).astype(np.int64)
        s = (self.hint('smp', d) % dd.astype(np.uint64)).astype(np.int64).astype(F)
        last = d - 1
        # weights that add up to the number of elements, exactly
        w0 = np.rint(64 * d * (F(0.1) + F(0.3) * unit('w0', self.hint('w0', d)))) / 64
        w1 = d / 2 - w0
        g = None
        if (d == 0).any():
            g = d != 0
        return [(self.zero, w0, g), (last, w0, g), (s, w1, g), (last - s, w1, g)]

    def ev_sum(self, n, env):
        L, nv, body, dim = n.args
        tot = self.zero
        leaf = raw('bound', L, 0)
        for i, w, g in self.samples(dim, env):
            e = self.bindenv(env, [(leaf, i)])
            v = self.ev(body, e) * w
            if g is not None:
                v = np.where(g, v, F(0))
            tot = tot + v
        return tot

    def ev_pick(self, n, env):
        i = np.nan_to_num(self.ev(n.args[0], env)).astype(np.int64)
        k = len(n.args) - 1
        lo, hi = i.min(), i.max()
        if lo == hi and 0 <= lo < k:
            return self.ev(n.args[1 + int(lo)], env)
        i = i % k
        out = self.zero
        for c in range(k):
            m = i == c
            if m.any():
                out = np.where(m, self.ev(n.args[1 + c], env), out)
        return out

    def ev_pcs(self, n, env):
        idx, base = n.args[0], n.args[1]
        i = self.ev(idx, env)

        def lam(l, v):
            return self.ev(l.args[2], self.bindenv(env, [(raw('bound', l.args[0], 0), v)]))
        done = np.zeros(self.R, dtype=bool)
        out = self.zero
        for k in range(len(n.args) - 3, 1, -3):
            s, e, b = n.args[k:k + 3]
            sv, evv = self.ev(s, env), self.ev(e, env)
            inside = (sv <= i) & (i < evv) & ~done
            if inside.any():
                out = np.where(inside, lam(b, i - sv), out)
                done = done | inside
        if not done.all():
            out = np.where(done, out, lam(base, i))
        return out

    def ev_loop(self, n, env):
        L, nv, sysn = n.args[:3]
        tgt, cond = sysn.args[0], sysn.args[1]
        parts = sysn.args[2:]
        m = nv - 1
        leaf = [raw('bound', L, k) for k in range(nv)]
        vals = []
        for k in range(m):
            ini = parts[2 * k]
            if ini.op == 'arr' or self.is_arrnode(parts[2 * k + 1]):
                vals.append(Clo(ini, env))
            else:
                vals.append(self.ev(ini, env))
        done = np.zeros(self.R, dtype=bool)
        out = np.full(self.R, np.nan, dtype=F)
        for it in range(self.kmax):
            e = self.bindenv(env, list(zip(leaf[:m], vals)) + [(leaf[m], np.full(self.R, it, dtype=F))])
            c = self.cond(cond, e)
            new = c & ~done
            if new.any():
                out = np.where(new, self.ev(tgt, e), out)
                done = done | new
                if done.all():
                    break
            nxt = []
            for k in range(m):
                nx = parts[2 * k + 1]
                nxt.append(Clo(nx, e) if type(vals[k]) is Clo else self.ev(nx, e))
            vals = nxt
        if not done.all():
            self.noexit[n] = self.noexit.get(n, False) | ~done
        return out

    def ev_arr(self, n, env):
        L, nv, body = n.args[:3]
        dims = n.args[3:]
        vals = [self.ev(d, env) for d in dims]

        def go(k, e):
            if k == nv:
                vals.append(self.ev(body, e))
                return
            for i, w, g in self.samples(dims[k], e):
                e2 = self.bindenv(e, [(raw('bound', L, k), i)])
                m = len(vals)
                go(k + 1, e2)
                if g is not None:
                    for q in range(m, len(vals)):
                        vals[q] = np.where(g, vals[q], F(-1))
        go(0, env)
        return self.H('array', *vals)

    def atom(self, n):
        o = self.overrides.get(n)
        if o is not None:
            return o
        name = n.args[0]
        u = unit(('atom',) + tuple(n.args), self.lanes)
        wide, zero = self.wide(name) if self.wide else (None, False)
        if name.startswith('int:'):
            v = np.floor(F(3) + 19 * u)
            r = self.ranges(name)
            if r is not None:
                v = np.floor(r[0] + (r[1] - r[0]) * u)
            if wide is not None:
                v = np.where(self.rare(n), np.floor(wide[0] + (wide[1] - wide[0]) * u), v)
        elif n.args[1] == 'bool':
            v = np.floor(2 * u)
        else:
            r = self.ranges(name)
            if r is None:
                v = (u - HALF) * 4
            else:
                v = F(r[0]) + (F(r[1]) - F(r[0])) * u
            if wide is not None:
                v = np.where(self.rare(n), F(wide[0]) + (F(wide[1]) - F(wide[0])) * u, v)
                if zero:
                    v = np.where(unit(('zero',) + tuple(n.args), self.lanes) < F(0.03), F(0), v)
            if self.jitter:
                v = v * (1 + F(self.jitter) * (unit(('jit',) + tuple(n.args), self.lanes) - HALF))
        return self.spice(n, v)

    def rare(self, n):
        """lanes on which unknown n takes a value outside its usual range"""
        u = unit(('rare',) + tuple(n.args), self.lanes)
        k = np.arange(self.R) % 8
        return u < np.where(k == 3, F(.4), np.where(k == 5, F(.15), np.where(k == 6, F(.05), F(0))))

    def spice(self, n, v, p=4):
        l = self.special.get(n)
        if not l:
            return v
        k = len(l)
        tot = 2 * k if l[0].op == 's' else p * k
        sel = (self.hint(('spice', repr(n.args))) % U(tot)).astype(np.int64)
        for i, c in enumerate(sorted(l, key=repr)):
            v = np.where(sel == i, self.ev(c, {}), v)
        return v

    def ev_lt(self, n, env):
        a, b = n.args
        return self.b2f(self.ev(a, env) < self.ev(b, env))

    def ev1(self, n, env):
        op = n.op
        a = n.args
        with np.errstate(all='ignore'):
            if op == 'add':
                return self.ev(a[0], env) + self.ev(a[1], env)
            if op == 'mul':
                return self.ev(a[0], env) * self.ev(a[1], env)
            if op == 'neg':
                return -self.ev(a[0], env)
            if op == 'div':
                return self.ev(a[0], env) / self.ev(a[1], env)
            if op == 'eq':
                return self.b2f(self.ev(a[0], env) == self.ev(a[1], env))
            if op == 'uninit' and n in self.overrides:
                return self.overrides[n]
            if op == 'not':
                return self.b2f(self.ev(a[0], env) == 0)
            if op == 'and':
                c = self.cond(a[0], env)
                if not c.any():
                    return self.zero
                return self.b2f(c & self.cond(a[1], env))
            if op == 'or':
                c = self.cond(a[0], env)
                if c.all():
                    return self.one
                return self.b2f(c | self.cond(a[1], env))
            if op == 'truth':
                v = self.ev(a[0], env)
                return self.b2f((v != 0) & (v != self.H('none')))
            if op == 'has':
                return self.b2f((self.hint(('has',) + tuple(x if type(x) is not Node else x.id for x in a)) >> U(40)) & U(1))
            if op == 'cnt':
                if a[0].op == 'arr' and a[0].args[1] == 1:
                    t = self.zero
                    an = a[0]
                    for i, w, g in self.samples(an.args[3], env):
                        e = self.bindenv(env, [(raw('bound', an.args[0], 0), i)])
                        c = self.cond(an.args[2], e)
                        t = t + self.b2f(c if g is None else (c & g))
                    return t
                return np.floor(3 + 10 * (1 + np.sin(self.ev(a[0], env))))
            if op == 'pi':
                return np.full(self.R, 4 * np.arctan(F(1)), dtype=F)
            if op == 'dict':
                t = self.H('dict')
                for k in range(0, len(a), 3):
                    p = self.cond(a[k + 1], env)
                    if not p.any():
                        continue
                    t = np.where(p, t + self.H('item', self.ev(a[k], env), self.ev(a[k + 2], env)), t)
                return t
            if op == 'get' and a[0].op == 'f:solve':
                return self.ev_solve(a[0], self.ev(a[1], env), env)
            if op == 'get' and (a[0].op.startswith('f:interp') or a[0].op == 'f:simpsw') and len(a) == 2 and a[0].args[-1].op == 'arr' and a[0].args[-1].args[1] == 1:
                return self.ev_weight(a[0], self.ev(a[1], env), env)
            return GVN.ev1(self, n, env)

    def ev_solve(self, n, i, env):
        """element i of the solution x of A x = b: unchanged when an equation is
        multiplied by a number, linear in b, inverse in A"""
        A, B = n.args
        if A.op != 'arr' or B.op != 'arr' or A.args[1] != 2 or B.args[1] != 1:
            return self.H('get', self.ev(n, env), i)
        key = ('solved', n.id, self.ekey(n, env))
        r = self.memo.get(key)
        if r is None:
            rows, rhs = [], []
            for k, (p, w, g) in enumerate(self.samples(B.args[3], env)):
                b = self.ev(B.args[2], self.bindenv(env, [(raw('bound', B.args[0], 0), p)]))
                row, s = [], self.zero
                for m, (q, w2, g2) in enumerate(self.samples(A.args[4], env)):
                    v = self.ev(A.args[2], self.bindenv(env, [(raw('bound', A.args[0], 0), p), (raw('bound', A.args[0], 1), q)]))
                    if g2 is not None:
                        v = np.where(g2, v, F(0))
                    row.append(v)
                    s = s + (F(1.5) + self.cf(('row', m))) * v
                if g is not None:
                    b, s = np.where(g, b, F(0)), np.where(g, s, F(1))
                    row = [np.where(g, v, F(0)) for v in row]
                rows += [v / s for v in row]
                rhs.append(b / s)
            t = self.zero
            for k, b in enumerate(rhs):
                t = t + (F(1.5) + self.cf(('rhs', k))) * b
            u = np.where(t == 0, self.one, t)
            r = self.memo[key] = (rows + [b / u for b in rhs], t)
        return self.H('get', self.H('f:solve', *r[0]), i) * r[1]

    def ev_weight(self, n, i, env):
        """weight i of an interpolation (unchanged when the abscissa and the
        nodes are multiplied by a positive number) or of a quadrature (multiplied by it)"""
        X = n.args[-1]
        leaf = raw('bound', X.args[0], 0)
        vals = []
        t = self.zero
        for k, (p, w, g) in enumerate(self.samples(X.args[3], env)):
            v = self.ev(X.args[2], self.bindenv(env, [(leaf, p)]))
            if g is not None:
                v = np.where(g, v, F(0))
            vals.append(v)
            t = t + (F(1.5) + self.cf(('node', k))) * np.abs(v)
        t = np.where(t == 0, self.one, t)
        q = [self.ev(X.args[3], env)] + [v / t for v in vals]
        if n.op == 'f:simpsw':
            return self.H('get', self.H(n.op, *q), i) * t
        return self.H('get', self.H(n.op, self.ev(n.args[0], env) / t, *q), i)

    def ev_fn(self, f, n, env):
        a = n.args
        if f in ('sqrt', 'sin', 'cos', 'arctan', 'arcsin', 'arccos', 'sinh', 'cosh', 'tanh', 'exp', 'log', 'log10', 'abs', 'sign', 'floor', 'ceil'):
            return getattr(np, f)(self.ev(a[0], env))
        if f == 'arctan2':
            return np.arctan2(self.ev(a[0], env), self.ev(a[1], env))
        if f == 'pow':
            return np.power(self.ev(a[0], env), self.ev(a[1], env))
        if f in ('ceildiv', 'floordiv'):
            x, y = self.ev(a[0], env), self.ev(a[1], env)
            return (np.ceil if f == 'ceildiv' else np.floor)(x / y)
        if f == 'mod':
            return np.mod(self.ev(a[0], env), self.ev(a[1], env))
        if f == 'toint':
            return np.trunc(self.ev(a[0], env))
        if f == 'round':
            return np.rint(self.ev(a[0], env))
        if f == 'tofloat' and ir.kind_of(a[0]) == 'num':
            return self.ev(a[0], env)
        if f in ('min', 'max') and len(a) == 2 and type(a[1]) is Node:
            return (np.minimum if f == 'min' else np.maximum)(self.ev(a[0], env), self.ev(a[1], env))
        args = [self.ev(x, env) for x in a if type(x) is Node]
        tag = ('fn', f) + tuple(x for x in a if type(x) is not Node)
        if f in ('isnan', 'fsexists', 'rootok', 'odeok', 'in', 'any', 'all'):
            return self.b2f(np.sin(37 * self.H(tag, *args)) > 0)
        r = self.H(tag, *args)
        if n in self.special:
            return self.spice(n, r)
        return r

    def differ(self, a, b, under=None, tol=1e-7):
        """(lanes that differ, lanes compared)"""
        if a is b:
            return [], self.R, 0
        self.scan(a, b)
        if under is not None:
            self.scan(under)
        va, vb = self.ev(a, {}), self.ev(b, {})
        okm = np.isfinite(va) & np.isfinite(vb)
        bad = (np.isfinite(va) != np.isfinite(vb))
        d = np.abs(va - vb) > tol * (np.abs(va) + np.abs(vb)) + F(1e-14)
        d = d & okm
        if under is not None:
            u = self.ev(under, {})
            u = (u != 0) & ~np.isnan(u)
            d, bad, okm = d & u, bad & u, okm & u
        if (d | bad).any() and self.noexit:
            # lanes on which a loop of either side goes on for longer than it is
            # followed say nothing, unless only one side does so and often
            cut = []
            for x in (a, b):
                m = np.zeros(self.R, dtype=bool)
                for n in ir.walk(x, set()):
                    if n in self.noexit:
                        m = m | self.noexit[n]
                cut.append(m)
            both, one = cut[0] & cut[1], cut[0] ^ cut[1]
            d, bad, okm = d & ~both, bad & ~both, okm & ~both
            if one.sum() * 4 <= self.R:
                d, bad, okm = d & ~one, bad & ~one, okm & ~one
        return [int(k) for k in np.nonzero(d)[0]], int(okm.sum()), int(bad.sum())

    def unstable(self, twin, b, lanes, tol=1e-7):
        """lanes on which b itself moves when the unknowns change by rounding"""
        twin.special = self.special
        va, vb = self.ev(b, {}), twin.ev(b, {})
        bad = ~(np.abs(va - vb) <= tol * HALF * (np.abs(va) + np.abs(vb)) + F(1e-14))
        return set(int(k) for k in lanes if bad[k])

    # ------------------------------------------------------ directed sampling
    def boundary(self, a, b, under=None, tol=1e-7, rounds=24):
        """Look for a difference next to the boundaries of the comparisons in
        a and b: for every comparison without free index variables, move from a
        point where it holds towards one where it fails, bisect, and compare a
        and b at points around the crossing."""
        seen = set()
        conds, atoms = [], []
        for r in (a, b) + ((under,) if under is not None else ()):
            for n in ir.walk(r, seen):
                if n.op in ('lt',) and not n.leaves:
                    conds.append(n)
                elif n.op == 'atom' and n.args[1] == 'num' and not n.args[0].startswith('int:'):
                    atoms.append(n)
        conds = conds[:12]
        if not conds or not atoms:
            return [], 0
        base = {x: self.ev(x, {}) for x in atoms}
        saved = dict(self.overrides)
        hits, total = [], 0
        try:
            for c in conds:
                v = self.ev(c, {}) != 0
                if v.all() or not v.any():
                    continue
                t, f = np.nonzero(v)[0], np.nonzero(~v)[0]
                k = self.R
                ti, fi = t[np.arange(k) % len(t)], f[(np.arange(k) // max(1, len(t)) + np.arange(k)) % len(f)]
                # only the unknowns move; integers, strings and presence bits stay those of the lane
                p, q = {x: base[x][ti] for x in atoms}, {x: base[x][fi] for x in atoms}
                lo, hi = np.zeros(k, dtype=F), np.ones(k, dtype=F)

                def at(s):
                    self.memo.clear()
                    for x in atoms:
                        self.overrides[x] = p[x] + s * (q[x] - p[x])
                at(lo)
                c0 = self.ev(c, {}) != 0
                at(hi)
                c1 = self.ev(c, {}) != 0
                use = c0 != c1
                if not use.any():
                    self.overrides = dict(saved)
                    self.memo.clear()
                    continue
                for _ in range(rounds):
                    mid = (lo + hi) * HALF
                    at(mid)
                    m = (self.ev(c, {}) != 0) == c0
                    lo, hi = np.where(m, mid, lo), np.where(m, hi, mid)
                for off in (-.1, -.03, -.01, -.003, -1e-3, -1e-4, -1e-6, 1e-6, 1e-4, 1e-3, .003, .01, .03, .1):
                    at(np.clip((lo + hi) * HALF + F(off), 0, 1))
                    va, vb = self.ev(a, {}), self.ev(b, {})
                    ok = np.isfinite(va) & np.isfinite(vb) & use
                    if under is not None:
                        ok &= self.ev(under, {}) != 0
                    total += int(ok.sum())
                    d = (np.abs(va - vb) > tol * (np.abs(va) + np.abs(vb)) + F(1e-14)) & ok
                    if d.any():
                        hits.append((c, int(d.sum())))
                        return hits, total
                self.overrides = dict(saved)
                self.memo.clear()
        finally:
            self.overrides = saved
            self.memo.clear()
        return hits, total
