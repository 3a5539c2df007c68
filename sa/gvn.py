"""Global value numbering by random interpretation (Gulwani & Necula).

Every node of the value graph gets a number: a vector of R independent
elements of the prime field GF(2^31-1), obtained by giving the unknowns random
field elements and interpreting the *operators of the graph* as field
operations (uninterpreted functions are hashed).  Two nodes with different
numbers are different functions of the unknowns; nodes with equal numbers are
congruent up to probability ~2^-31 per lane.  Conditions become a consistent
pseudo-random total order, so every gate is exercised both ways.

The prime is chosen with P = 7 (mod 8) and every small prime a quadratic
residue, so that the Legendre character is a multiplicative "sign" under which
small positive rationals are positive, -1 is negative, squares are positive,
sqrt(x*x) = |x| and sqrt(x*y) = sqrt(x)*sqrt(y) for positive x, y.
"""
from fractions import Fraction
import hashlib
import numpy as np
from . import ir
from .ir import raw, Node
from .arrays import linear

P = 2147260631
U = np.uint64
_M1 = U(0xff51afd7ed558ccd)
_M2 = U(0xc4ceb9fe1a85ec53)
_S33 = U(33)
KMAX = 70          # iterations of a recurrence followed before giving up
SMALLN = 8


def tagh(*xs):
    d = hashlib.blake2b(repr(xs).encode(), digest_size=8).digest()
    return int.from_bytes(d, 'little')


def mix(h, v):
    h = (h ^ (v + U(0x9E3779B97F4A7C15) + (h << U(6)) + (h >> U(2))))
    h = h ^ (h >> _S33)
    h = h * _M1
    h = h ^ (h >> _S33)
    h = h * _M2
    return h ^ (h >> _S33)


def fpow(x, e):
    r = np.ones_like(x)
    b = x.copy()
    while e:
        if e & 1:
            r = r * b % P
        b = b * b % P
        e >>= 1
    return r


def inv(x):
    return fpow(x, P - 2)


class Clo(object):
    """array value of a recurrence variable: node + environment"""
    __slots__ = ('node', 'env')

    def __init__(self, node, env):
        self.node, self.env = node, env


class GVN(object):
    def __init__(self, seed=1, R=48):
        self.R = R
        self.seed = seed
        self.memo = {}
        self.leafs = {}
        self.toks = {}
        self.special = {}     # atom node -> list of constants it is compared with
        self.strpool = {}
        self.lin = {}
        self.thr = {}
        self.signs = {}
        self.fac = {}
        self.positive = set()  # names (suffixes) of unknowns that are positive
        self.overrides = {}   # atom node -> lanes
        self.evals = 0
        self.lanes = np.arange(R, dtype=np.uint64) * U(0x9E3779B97F4A7C15) + U(tagh('seed', seed))
        self.zero = np.zeros(R, dtype=np.int64)
        self.one = np.ones(R, dtype=np.int64)
        self.scanned = set()
        self.segments = None   # (total, [(offset, length)]): sums are symmetric in them

    # ---------------------------------------------------------------- hashing
    def hsh(self, tag, *vals):
        h = self.lanes ^ U(tagh(tag))
        with np.errstate(over='ignore'):
            h = mix(h, U(len(vals)))
            for v in vals:
                h = mix(h, v.astype(np.uint64))
        return h

    def H(self, tag, *vals):
        return (self.hsh(tag, *vals) % U(P)).astype(np.int64)

    def const(self, fr):
        v = (fr.numerator % P) * pow(fr.denominator % P, P - 2, P) % P
        return np.full(self.R, v, dtype=np.int64)

    def rv(self, v):
        """order: field -> reals, odd, true for small integers"""
        neg = self.negative(v)
        c = np.where(neg, P - v, v)
        with np.errstate(over='ignore'):
            h = mix(U(0x1234567) ^ (c.astype(np.uint64) * _M2), self.lanes)
        u = (h >> U(11)).astype(np.float64) / float(1 << 53)
        m = np.exp((u - 0.5) * 8.0)
        m = np.where(c < 4096, c.astype(np.float64), m)
        return np.where(neg, -m, m)

    def negative(self, v):
        if (v < 4096).all():
            return np.zeros(self.R, dtype=bool)
        k = v.tobytes()
        r = self.signs.get(k)
        if r is None:
            r = fpow(v, (P - 1) // 2) == P - 1
            r = np.where(v < 4096, False, np.where(v > P - 4096, True, r))
            self.signs[k] = r
        return r

    # ------------------------------------------------------------ preparation
    def scan(self, *nodes):
        """learn which constants the unknowns are compared with"""
        new = False
        for n in nodes:
            for x in ir.walk(n, self.scanned):
                if x.op == 'eq':
                    for a, b in ((x.args[0], x.args[1]), (x.args[1], x.args[0])):
                        if a.op in ('n', 's'):
                            for y in self.gates(b):
                                if y.op == 'atom' or (y.op.startswith('f:str') or y.op == 'get'):
                                    l = self.special.setdefault(y, [])
                                    if a not in l:
                                        l.append(a)
                                        new = True
        if new:
            self.memo.clear()

    def gates(self, n):
        out, st = [], [n]
        while st:
            x = st.pop()
            if x.op == 'ite':
                st += [x.args[1], x.args[2]]
            else:
                out.append(x)
        return out

    def spice(self, n, v, p=4):
        """lanes where an unknown equals one of the constants it is tested against"""
        l = self.special.get(n)
        if not l:
            return v
        k = len(l)
        tot = 2 * k if l[0].op == 's' else p * k
        sel = (self.hsh(('spice', repr(n.args))) % U(tot)).astype(np.int64)
        for i, c in enumerate(sorted(l, key=repr)):
            v = np.where(sel == i, self.ev(c, {}), v)
        return v

    # -------------------------------------------------------------- tokens
    def tok(self, val):
        if type(val) is Clo:
            key = ('c', val.node.id, self.ekey(val.node, val.env))
        else:
            key = val.tobytes()
        t = self.toks.get(key)
        if t is None:
            t = self.toks[key] = len(self.toks) + 1
        return t

    def ekey(self, n, env):
        ls = self.leafs.get(n.id)
        if ls is None:
            ls = self.leafs[n.id] = tuple(sorted(n.leaves, key=lambda x: x.id))
        return tuple(env[l][0] if l in env else 0 for l in ls)

    def bindenv(self, env, pairs):
        e = dict(env)
        for k, v in pairs:
            e[k] = (self.tok(v), v)
        return e

    # ---------------------------------------------------------- evaluation
    def num(self, n):
        self.scan(n)
        return self.ev(n, {})

    def ev(self, n, env):
        if n.leaves:
            key = (n.id, self.ekey(n, env))
        else:
            key = n.id
        r = self.memo.get(key)
        if r is None:
            self.evals += 1
            r = self.ev1(n, env)
            self.memo[key] = r
        return r

    def cond(self, n, env):
        return self.ev(n, env) != 0

    def ev1(self, n, env):
        op = n.op
        a = n.args
        if op == 'n':
            return self.const(a[0])
        if op == 'add':
            return (self.ev(a[0], env) + self.ev(a[1], env)) % P
        if op == 'mul' or op == 'div':
            f = self.factors(n)
            if f is not None:
                return self.ev_product(f, env)
        if op == 'mul':
            return self.ev(a[0], env) * self.ev(a[1], env) % P
        if op == 'neg':
            return (P - self.ev(a[0], env)) % P
        if op == 'div':
            return self.ev(a[0], env) * inv(self.ev(a[1], env)) % P
        if op == 'ite':
            c = self.cond(a[0], env)
            if c.all():
                return self.ev(a[1], env)
            if not c.any():
                return self.ev(a[2], env)
            return np.where(c, self.ev(a[1], env), self.ev(a[2], env))
        if op == 'b':
            return self.one if a[0] else self.zero
        if op == 's':
            return self.H(('str', a[0]))
        if op == 'atom':
            return self.atom(n)
        if op in ir.LEAFOPS:
            e = env.get(n)
            if e is None:
                return self.H(('leaf', op) + tuple(a))
            if type(e[1]) is Clo:
                return self.ev(e[1].node, e[1].env)
            return e[1]
        if op == 'lt':
            return self.ev_lt(n, env)
        if op == 'eq':
            return (self.ev(a[0], env) == self.ev(a[1], env)).astype(np.int64)
        if op == 'not':
            return (self.ev(a[0], env) == 0).astype(np.int64)
        if op == 'and':
            c = self.cond(a[0], env)
            if not c.any():
                return self.zero
            return (c & self.cond(a[1], env)).astype(np.int64)
        if op == 'or':
            c = self.cond(a[0], env)
            if c.all():
                return self.one
            return (c | self.cond(a[1], env)).astype(np.int64)
        if op == 'truth':
            v = self.ev(a[0], env)
            return ((v != 0) & (v != self.H('none'))).astype(np.int64)
        if op == 'has':
            return (self.hsh(('has',) + tuple(x if type(x) is not Node else x.id for x in a)) >> U(40) & U(1)).astype(np.int64)
        if op == 'sum':
            return self.ev_sum(n, env)
        if op == 'pick':
            return self.ev_pick(n, env)
        if op == 'get':
            return self.ev_get(a[0], [self.ev(x, env) for x in a[1:]], env)
        if op == 'arr':
            return self.ev_arr(n, env)
        if op == 'loopval':
            return self.ev_loop(n, env)
        if op == 'pcs':
            return self.ev_pcs(n, env)
        if op == 'cnt':
            if a[0].op == 'arr' and a[0].args[1] == 1:
                # elements satisfying the condition, over the sampled positions
                an = a[0]
                t = self.zero
                for i, w, g in self.samples(an.args[3], env):
                    e = self.bindenv(env, [(raw('bound', an.args[0], 0), i)])
                    c = self.cond(an.args[2], e)
                    t = t + (c if g is None else (c & g)).astype(np.int64)
                return t
            v = self.H('cnt', self.ev(a[0], env))
            return 3 + v % 20
        if op == 'pi':
            return self.H('pi')
        if op == 'dict':
            # order-insensitive, presence-gated
            t = self.H('dict')
            for k in range(0, len(a), 3):
                p = self.cond(a[k + 1], env)
                if not p.any():
                    continue
                t = np.where(p, (t + self.H('item', self.ev(a[k], env), self.ev(a[k + 2], env))) % P, t)
            return t
        if op.startswith('f:'):
            return self.ev_fn(op[2:], n, env)
        if op == 'uninit' and n in self.overrides:
            return self.overrides[n]
        return self.H(('op', op) + tuple(x for x in a if type(x) is not Node),
                      *[self.ev(x, env) for x in a if type(x) is Node])

    def atom(self, n):
        o = self.overrides.get(n)
        if o is not None:
            return o
        name = n.args[0]
        v = self.H(('atom',) + tuple(n.args))
        if name in self.positive or name.rpartition('.')[2] in self.positive:
            v = v * v % P
        if name.startswith('int:'):
            v = 3 + v % 22
        if n.args[1] == 'bool':
            v = v % 2
        return self.spice(n, v)

    def factors(self, n):
        """product of nodes with integer exponents, when it contains a root
        that can be combined with another one; otherwise None"""
        r = self.fac.get(n.id, 0)
        if r != 0:
            return r
        out, roots = {}, 0
        st = [(n, 1)]
        k = 0
        while st:
            x, e = st.pop()
            k += 1
            if k > 64:
                break
            if x.op == 'mul':
                st += [(x.args[0], e), (x.args[1], e)]
            elif x.op == 'div':
                st += [(x.args[0], e), (x.args[1], -e)]
            elif x.op == 'neg':
                out[ir.num(-1)] = out.get(ir.num(-1), 0) + 1
                st.append((x.args[0], e))
            else:
                out[x] = out.get(x, 0) + e
        for x, e in st:
            out[x] = out.get(x, 0) + e
        roots = sum(abs(e) for x, e in out.items() if x.op == 'f:sqrt')
        live = sum(1 for x, e in out.items() if x.op == 'f:sqrt')
        r = None if (roots < 2 and live < 2) else list(out.items())
        self.fac[n.id] = r
        return r

    def ev_product(self, f, env):
        v = self.one
        rad = {}
        for x, e in f:
            if x.op == 'f:sqrt':
                b = self.ev(x.args[0], env)
                k = b.tobytes()
                rad[k] = (b, rad.get(k, (b, 0))[1] + e)
            elif e:
                b = self.ev(x, env)
                v = v * (fpow(b, e) if e > 0 else inv(fpow(b, -e))) % P
        for b, e in rad.values():
            h, o = (e // 2, 1) if e % 2 else (e // 2, 0)
            if h:
                v = v * (fpow(b, h) if h > 0 else inv(fpow(b, -h))) % P
            if o:
                v = v * fpow(b, (P + 1) // 4) % P
        return v

    def ev_lt(self, n, env):
        r = self.lin.get(n.id)
        a, b = n.args
        if r is None:
            if a.op == 's' or b.op == 's' or ir.kind_of(a) == 'str':
                r = ()
            else:
                d = linear(ir.sub(a, b))
                c = d.pop(None, Fraction(0))
                r = (c, sorted(d.items(), key=lambda kv: kv[0].id))
            self.lin[n.id] = r
        if not r:
            return (self.rv(self.ev(a, env)) < self.rv(self.ev(b, env))).astype(np.int64)
        c, terms = r
        if not terms:
            return np.full(self.R, 1 if c < 0 else 0, dtype=np.int64)
        if len(terms) == 1:
            t, k = terms[0]
            v = self.rv(self.ev(t, env))
            b = -c / k
            bound = float(b)
            if c != 0:
                # the constant's place in the order is arbitrary (but keeps its
                # sign), so that different thresholds have different numbers
                h = self.thr.get(b)
                if h is None:
                    u = (self.hsh(('thr', abs(b))) >> U(11)).astype(np.float64) / float(1 << 53)
                    h = self.thr[b] = np.exp((u - 0.5) * 8.0) * (1 if b > 0 else -1)
                bound = np.where((v == np.rint(v)) & (np.abs(v) < 4096), bound, h)
            return ((v < bound) if k > 0 else (v > bound)).astype(np.int64)
        m = max(abs(k) for _, k in terms)
        pos = neg = self.zero
        for t, k in terms:
            v = self.ev(t, env) * self.const(abs(k) / m) % P
            if k > 0:
                pos = (pos + v) % P
            else:
                neg = (neg + v) % P
        if c > 0:
            pos = (pos + self.const(c / m)) % P
        elif c < 0:
            neg = (neg + self.const(-c / m)) % P
        return (self.rv(pos) < self.rv(neg)).astype(np.int64)

    # ---------------------------------------------------------------- indices
    def samples(self, dim, env):
        """[(index lanes, weight lanes, gate lanes or None)] for an axis"""
        k = ir.int_of(dim)
        if k is not None and k <= SMALLN:
            return [(np.full(self.R, c, dtype=np.int64), self.one, None) for c in range(k)]
        if dim.op == 'cnt' and dim.args[0].op == 'arr' and dim.args[0].args[1] == 1:
            an = dim.args[0]
            out = []
            for i, w, g in self.samples(an.args[3], env):
                e = self.bindenv(env, [(raw('bound', an.args[0], 0), i)])
                c = self.cond(an.args[2], e)
                out.append((i, w, c if g is None else (c & g)))
            return out
        d = self.ev(dim, env)
        if self.segments is not None and (d == self.ev(self.segments[0], {})).all():
            out = []
            for o, n in self.segments[1]:
                off = self.ev(o, {})
                out += [(i + off, w, g) for i, w, g in self.axis(self.ev(n, {}))]
            return out
        return self.axis(d)

    def axis(self, d):
        small = d < 4096
        dd = np.where(small & (d > 0), d, 7)
        s = (self.hsh('smp', d) % dd.astype(np.uint64)).astype(np.int64)
        s = np.where(small, s, self.H('smpbig', d))
        last = (d + P - 1) % P
        w0, w1 = self.H('w0', d), self.H('w1', d)
        ne = small & (d == 0)
        g = None
        if ne.any():
            g = ~ne
        return [(self.zero, w0, g), (last, w0, g), (s, w1, g), ((last - s) % P, w1, g)]

    def ev_sum(self, n, env):
        L, nv, body, dim = n.args
        tot = self.zero
        leaf = raw('bound', L, 0)
        for i, w, g in self.samples(dim, env):
            e = self.bindenv(env, [(leaf, i)])
            v = self.ev(body, e) * w % P
            if g is not None:
                v = np.where(g, v, 0)
            tot = (tot + v) % P
        return tot

    def ev_arr(self, n, env):
        L, nv, body = n.args[:3]
        dims = n.args[3:]
        vals = [self.ev(d, env) for d in dims]

        def go(k, e):
            if k == nv:
                vals.append(self.ev(body, e))
                return
            for i, w, g in self.samples(dims[k], e):
                e2 = self.bindenv(e, [(raw('bound', L, k), i)])
                if g is None:
                    go(k + 1, e2)
                else:
                    m = len(vals)
                    go(k + 1, e2)
                    for q in range(m, len(vals)):
                        vals[q] = np.where(g, vals[q], -1 % P)
        go(0, env)
        return self.H('array', *vals)

    def ev_get(self, a, idx, env):
        if a.op == 'arr' and a.args[1] == len(idx):
            e = self.bindenv(env, [(raw('bound', a.args[0], k), v) for k, v in enumerate(idx)])
            return self.ev(a.args[2], e)
        if a.op in ir.LEAFOPS and a in env and type(env[a][1]) is Clo:
            c = env[a][1]
            return self.ev_get(c.node, idx, c.env)
        if a.op == 'ite':
            c = self.cond(a.args[0], env)
            if c.all():
                return self.ev_get(a.args[1], idx, env)
            if not c.any():
                return self.ev_get(a.args[2], idx, env)
            return np.where(c, self.ev_get(a.args[1], idx, env), self.ev_get(a.args[2], idx, env))
        return self.H('get', self.ev(a, env), *idx)

    def ev_pick(self, n, env):
        i = self.ev(n.args[0], env)
        k = len(n.args) - 1
        lo, hi = i.min(), i.max()
        if lo == hi and lo < k:
            return self.ev(n.args[1 + int(lo)], env)
        i = np.where(i > P // 2, (i - P) % k, i % k)
        out = self.zero
        for c in range(k):
            m = i == c
            if m.any():
                out = np.where(m, self.ev(n.args[1 + c], env), out)
        return out

    def ev_pcs(self, n, env):
        idx, base = n.args[0], n.args[1]
        i = self.ev(idx, env)

        def lam(l, v):
            return self.ev(l.args[2], self.bindenv(env, [(raw('bound', l.args[0], 0), v)]))
        done = np.zeros(self.R, dtype=bool)
        out = self.zero
        for k in range(len(n.args) - 3, 1, -3):       # later pieces win
            s, e, b = n.args[k:k + 3]
            sv, evv = self.ev(s, env), self.ev(e, env)
            inside = (self.rv(sv) <= self.rv(i)) & (self.rv(i) < self.rv(evv)) & ~done
            if inside.any():
                out = np.where(inside, lam(b, (i - sv) % P), out)
                done = done | inside
        if not done.all():
            out = np.where(done, out, lam(base, i))
        return out

    # ------------------------------------------------------------ recurrences
    def ev_loop(self, n, env):
        L, nv, sysn = n.args[:3]
        tgt, cond = sysn.args[0], sysn.args[1]
        parts = sysn.args[2:]
        m = nv - 1
        leaf = [raw('bound', L, k) for k in range(nv)]
        vals = []
        for k in range(m):
            ini = parts[2 * k]
            if ini.op == 'arr' or self.is_arrnode(parts[2 * k + 1]):
                vals.append(Clo(ini, env))
            else:
                vals.append(self.ev(ini, env))
        done = np.zeros(self.R, dtype=bool)
        out = self.H('noexit')
        for it in range(KMAX):
            e = self.bindenv(env, list(zip(leaf[:m], vals)) + [(leaf[m], np.full(self.R, it, dtype=np.int64))])
            c = self.cond(cond, e)
            new = c & ~done
            if new.any():
                out = np.where(new, self.ev(tgt, e), out)
                done = done | new
                if done.all():
                    break
            nxt = []
            for k in range(m):
                nx = parts[2 * k + 1]
                if type(vals[k]) is Clo:
                    nxt.append(Clo(nx, e))
                else:
                    nxt.append(self.ev(nx, e))
            vals = nxt
        return out

    def is_arrnode(self, n):
        return n.op == 'arr'

    # ---------------------------------------------------------------- functions
    def canon(self, v):
        neg = v > P // 2
        return np.where(neg, P - v, v), neg

    def ev_fn(self, f, n, env):
        a = n.args
        if f == 'sqrt':
            return fpow(self.ev(a[0], env), (P + 1) // 4)
        if f in ('sin', 'cos'):
            c, ng = self.canon(self.ev(a[0], env))
            t = self.H('trig', c)
            for k in range(16):          # cosines are positive
                t2 = t * t % P
                bad = self.negative((1 - t2 * t2) % P)
                if not bad.any():
                    break
                t = np.where(bad, self.H(('trig', k), c), t)
            t = np.where(c == 0, 0, t)
            d = inv((1 + t * t) % P)
            if f == 'cos':
                return (1 - t * t) % P * d % P
            s = 2 * t % P * d % P
            return np.where(ng, (P - s) % P, s)
        if f == 'abs':
            v = self.ev(a[0], env)
            return np.where(self.rv(v) < 0, (P - v) % P, v)
        if f == 'sign':
            r = self.rv(self.ev(a[0], env))
            return np.where(r > 0, 1, np.where(r < 0, P - 1, 0)).astype(np.int64)
        if f in ('arctan', 'arcsin', 'sinh', 'tanh'):
            c, ng = self.canon(self.ev(a[0], env))
            s = self.H(f, c)
            s = np.where(c == 0, 0, s)
            return np.where(ng, (P - s) % P, s)
        if f == 'cosh':
            c, ng = self.canon(self.ev(a[0], env))
            return self.H(f, c)
        if f == 'arctan2':
            c, ng = self.canon(self.ev(a[0], env))
            s = self.H(f, c, self.ev(a[1], env))
            return np.where(ng, (P - s) % P, s)
        if f == 'ceildiv':
            x, y = self.ev(a[0], env), self.ev(a[1], env)
            return np.where((x < 4096) & (y < 4096) & (y > 0), -(-x // np.maximum(y, 1)), self.H(f, x, y))
        if f == 'floordiv':
            x, y = self.ev(a[0], env), self.ev(a[1], env)
            return np.where((x < 4096) & (y < 4096) & (y > 0), x // np.maximum(y, 1), self.H(f, x, y))
        if f == 'mod':
            x, y = self.ev(a[0], env), self.ev(a[1], env)
            return np.where((x < 4096) & (y < 4096) & (y > 0), x % np.maximum(y, 1), self.H(f, x, y))
        if f in ('toint', 'tofloat', 'round'):
            x = self.ev(a[0], env)
            if f == 'tofloat' and ir.kind_of(a[0]) == 'num':
                return x
            return np.where((x < 4096), x, self.H(f, x)) if f != 'tofloat' else self.H(f, x)
        if f in ('any', 'all'):
            v = self.H(f, *[self.ev(x, env) for x in a if type(x) is Node])
            return v % 2
        r = self.H(('fn', f) + tuple(x for x in a if type(x) is not Node),
                   *[self.ev(x, env) for x in a if type(x) is Node])
        if f in ('isnan', 'fsexists', 'rootok', 'odeok', 'in'):
            return r % 2
        if n in self.special:
            return self.spice(n, r)
        return r

    # ------------------------------------------------------------------ queries
    def same(self, a, b, under=None):
        """lanes on which a and b differ (empty: congruent)"""
        if a is b:
            return []
        self.scan(a, b)
        if under is not None:
            self.scan(under)
        va, vb = self.ev(a, {}), self.ev(b, {})
        d = va != vb
        if under is not None:
            u = self.ev(under, {}) != 0
            if d.any() and not u.any():
                return [-1]         # nothing seen where the condition holds
            d = d & u
        return [int(k) for k in np.nonzero(d)[0]]
