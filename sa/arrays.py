"""Array semantics of the abstract interpreter: point-wise bodies, views,
slices, masks, reductions."""
from fractions import Fraction
from . import ir
from .ir import Node, num, iv, ite, lift, subst, pick, raw, ZERO, ONE, TRUE, FALSE, unk
from .heap import (Ref, Phi, Obj, SliceV, ELLIPSIS, WhereIdx, DiagIdx, mask_dim,
                   UNDEF)

SMALL = 8


class NotArr(Exception):
    pass


def shift(body, delta, r, shape=None, rshape=None):
    """re-index a body of rank r so that axis k becomes axis k+delta"""
    if delta == 0:
        return body
    m = {iv(k): iv(k + delta) for k in range(r)}
    return subst(body, m)


def expand(shape, body):
    for k in reversed(range(len(shape))):
        d = ir.int_of(shape[k])
        if d is not None and d <= SMALL and iv(k) in body.leaves:
            # already a pick on this axis at the top levels?  lift handles it
            body = pick(iv(k), *[subst(body, {iv(k): num(c)}) for c in range(d)])
    return body


def dim_bcast(a, b):
    if a is b:
        return a
    if ir.int_of(a) == 1:
        return b
    if ir.int_of(b) == 1:
        return a
    if a.op == 'cnt':
        return a
    if b.op == 'cnt':
        return b
    if ir.int_of(a) is not None:
        return a
    return b


def bcast(items):
    """[(shape, body)] -> shape, [bodies aligned]"""
    r = max(len(s) for s, _ in items)
    shape = [ONE] * r
    for s, _ in items:
        for k in range(len(s)):
            j = k + r - len(s)
            shape[j] = dim_bcast(shape[j], s[k])
    out = []
    for s, b in items:
        q = len(s)
        m = {}
        for k in range(q):
            j = k + r - q
            if ir.int_of(s[k]) == 1 and ir.int_of(shape[j]) != 1:
                m[iv(k)] = ZERO
            elif j != k:
                m[iv(k)] = iv(j)
        out.append(subst(b, m) if m else b)
    return tuple(shape), out


def lin_same(a, b):
    if a is b:
        return True
    d = linear(ir.sub(a, b))
    return d is not None and not d


def linear(n, depth=0):
    """integer-linear form {atom-node: coeff}, const under None; {} is zero"""
    out = {}

    def go(x, c):
        if x.op == 'n':
            out[None] = out.get(None, 0) + c * x.args[0]
        elif x.op == 'add':
            go(x.args[0], c)
            go(x.args[1], c)
        elif x.op == 'neg':
            go(x.args[0], -c)
        elif x.op == 'mul' and x.args[0].op == 'n':
            go(x.args[1], c * x.args[0].args[0])
        elif x.op == 'mul' and x.args[1].op == 'n':
            go(x.args[0], c * x.args[1].args[0])
        elif x.op == 'mul':
            a, b = linear(x.args[0]), linear(x.args[1])
            for ka, ca in a.items():
                for kb, cb in b.items():
                    if ka is None and kb is None:
                        k = None
                    elif ka is None:
                        k = kb
                    elif kb is None:
                        k = ka
                    else:
                        p, q = (ka, kb) if ka.id <= kb.id else (kb, ka)
                        k = raw('mul', p, q)
                    out[k] = out.get(k, 0) + c * ca * cb
        else:
            out[x] = out.get(x, 0) + c
    go(n, Fraction(1))
    return {k: v for k, v in out.items() if v != 0}


PV = raw('tv', 'pv')


def pcs_read(body, axis, start, stop):
    """body with iv(axis) relative to the slice [start, stop)"""
    memo = {}

    def go(n):
        r = memo.get(n)
        if r is not None:
            return r
        if iv(axis) not in n.leaves:
            r = n
        elif n.op == 'pcs' and n.args[0] is iv(axis):
            r = None
            for k in range(2, len(n.args), 3):
                s, e, b = n.args[k:k + 3]
                if lin_same(s, start) and lin_same(e, stop):
                    r = raw_lam_apply(b, iv(axis))
                    break
            if r is None:
                r = mk_pcs(ir.add(start, iv(axis)), *n.args[1:])
        elif n is iv(axis):
            r = ir.add(start, n)
        else:
            args = tuple(go(a) if type(a) is Node else a for a in n.args)
            r = ir.rebuild(n.op, args)
        memo[n] = r
        return r
    return go(body)


def raw_lam(body, leaf):
    return ir.bind('lamv', [leaf], body)


def raw_lam_apply(lam, arg):
    L = lam.args[0]
    return subst(lam.args[2], {raw('bound', L, 0): arg})


def mk_pcs(idx, base, *pieces):
    for k in range(0, len(pieces), 3):
        s, e, b = pieces[k:k + 3]
        if lin_same(idx, s):
            return raw_lam_apply(b, ZERO)
    k = ir.int_of(idx)
    if k is not None:
        # a known index among pieces with known ends
        for q in range(len(pieces) - 3, -1, -3):
            s, e = ir.int_of(pieces[q]), ir.int_of(pieces[q + 1])
            if s is None or e is None:
                break
            if s <= k < e:
                return raw_lam_apply(pieces[q + 2], num(k - s))
        else:
            return raw_lam_apply(base, idx)
    return raw('pcs', idx, base, *pieces)


ir._builders['pcs'] = mk_pcs


def pcs_write(old, axis, start, stop, newrel, dim):
    """body equal to newrel (iv(axis) relative) on [start,stop), old elsewhere.
    distributes over component picks."""
    def one(o, v):
        lam = raw_lam(v, iv(axis))
        if o.op == 'pcs' and o.args[0] is iv(axis):
            base = o.args[1]
            ps = [o.args[k:k + 3] for k in range(2, len(o.args), 3)]
        else:
            base = raw_lam(o, iv(axis))
            ps = []
        ps = [p for p in ps if not (lin_same(p[0], start) and lin_same(p[1], stop))]
        ps.append((start, stop, lam))
        # do the pieces tile the whole axis?  then the base is dead
        cur, used = ZERO, 0
        while True:
            nxt = [p for p in ps if lin_same(p[0], cur)]
            if not nxt:
                break
            cur = nxt[0][1]
            used += 1
            if used > len(ps):
                break
            if lin_same(cur, dim):
                base = raw_lam(ZERO, iv(axis))
                break
        flat = []
        for p in ps:
            flat.extend(p)
        return raw('pcs', iv(axis), base, *flat)
    # lift over picks of other axes
    best = None
    for b in (old, newrel):
        if b.op == 'pick' and b.args[0].op == 'iv' and b.args[0] is not iv(axis):
            best = b
            break
    if best is None:
        return one(old, newrel)
    idx = best.args[0]
    alts = []
    for c in range(len(best.args) - 1):
        m = {idx: num(c)}
        alts.append(pcs_write(subst(old, m), axis, start, stop, subst(newrel, m), dim))
    return pick(idx, *alts)


def close_arr(shape, body):
    return ir.bind('arr', [iv(k) for k in range(len(shape))], body, *shape)


def arr_get(a, idx):
    """element of an array-valued node"""
    return raw('get', a, *idx)


def sum_axis(shape, body, axis):
    """sum a body over one axis; returns body over the remaining axes"""
    d = shape[axis]
    k = ir.int_of(d)
    if k is not None and k <= SMALL:
        tot = None
        for c in range(k):
            t = subst(body, {iv(axis): num(c)})
            tot = t if tot is None else lift(ir.add, tot, t)
        res = tot if tot is not None else ZERO
    else:
        leaf = iv(axis)

        def mk(b):
            return mk_sum(leaf, d, b)
        res = lift(mk, body)
    m = {iv(j): iv(j - 1) for j in range(axis + 1, len(shape))}
    return subst(res, m)


def mk_sum(leaf, dim, body):
    if body is ZERO:
        return ZERO
    return ir.bind('sum', [leaf], body, dim)


class ArrayOps(object):
    """mixin for Interp"""

    def alloc(self, obj):
        from .heap import new_oid
        o = new_oid()
        self.st.heap.set(o, obj)
        return Ref(o)

    def new_arr(self, shape, body, dtype='f'):
        shape = tuple(shape)
        body = expand(shape, body)
        return self.alloc(Obj('arr', {'shape': shape, 'body': body, 'dtype': dtype}))

    def obj(self, ref):
        return self.st.heap.get(ref.oid)

    def is_arr(self, v):
        if type(v) is Ref:
            o = self.obj(v)
            return o is not None and o.kind in ('arr', 'view')
        if type(v) is Phi:
            return self.is_arr(v.a) or self.is_arr(v.b)
        return False

    # ------------------------------------------------------------ reading
    def arr(self, v):
        """(shape, body) of any array-like value; scalars have shape ()"""
        t = type(v)
        if t is Node:
            return (), v
        if t is Ref:
            o = self.obj(v)
            if o.kind == 'arr':
                return o.f['shape'], o.f['body']
            if o.kind == 'view':
                return self.view_read(o)
            if o.kind == 'list':
                return self.list_arr(o)
            raise NotArr(o.kind)
        if t is tuple:
            return self.seq_arr([self.arr(x) for x in v])
        if t is Phi:
            try:
                sa, ba = self.arr(v.a)
                sb, bb = self.arr(v.b)
            except NotArr:
                # one side is not an array (None / undefined): the operation
                # fails there, so the value is the other side's
                for x in (v.a, v.b):
                    try:
                        if type(x) is Node and x.op == 'none':
                            continue
                        return self.arr(x)
                    except NotArr:
                        continue
                raise
            if type(v.a) is Node and v.a.op == 'none':
                return sb, bb
            if type(v.b) is Node and v.b.op == 'none':
                return sa, ba
            if len(sa) == len(sb):
                sh, (x, y) = bcast([(sa, ba), (sb, bb)])
                return sh, lift(ite, v.c, x, y)
            sh, (x, y) = bcast([(sa, ba), (sb, bb)])
            return sh, lift(ite, v.c, x, y)
        if t is WhereIdx:
            n = v.count()
            return (n,), raw('widx', n, iv(0))
        raise NotArr(repr(v))

    def seq_arr(self, items):
        if not items:
            return (ZERO,), ZERO
        sh, bodies = bcast(items)
        sub = [shift(b, 1, len(sh)) for b in bodies]
        return (num(len(items)),) + sh, pick(iv(0), *sub) if len(items) > 1 else sub[0]

    def list_arr(self, o):
        if o.x is None:
            return self.seq_arr([self.arr(x) for x in o.f['items']])
        if o.x == 'sym' and not o.f['items']:
            vals = o.f['vals']
            if len(vals) == 1:
                sh, b = self.arr(vals[0])
                b = shift(b, 1, len(sh))
                return (o.f['count'],) + sh, subst(b, {o.f['li']: iv(0)})
        if o.x == 'phi':
            c, a, b = o.f['phi']
            sa, ba = self.list_arr(a)
            sb, bb = self.list_arr(b)
            return sa, lift(ite, c, ba, bb)
        return (unk('len', id(o)),), unk('listarr', id(o))

    def view_read(self, o):
        bshape, body = self.arr(Ref(o.f['base']))
        specs = o.f['specs']
        # slices with offsets first (piece resolution), then renaming
        m = {}
        for k, sp in enumerate(specs):
            tmp = raw('tv', 'v%d' % k)
            if sp[0] == 'i':
                m[iv(k)] = sp[1]
            elif sp[0] == 'f':
                m[iv(k)] = raw('tv', sp[1])
            else:
                _, start, stop, step, j = sp
                if step == 1:
                    body = pcs_read(body, k, start, stop)
                    m[iv(k)] = raw('tv', j)
                elif step == -1:
                    m[iv(k)] = ir.sub(start, raw('tv', j))
                else:
                    m[iv(k)] = ir.add(start, ir.mul(num(step), raw('tv', j)))
        body = subst(body, m)
        r = len(o.f['shape'])
        body = subst(body, {raw('tv', j): iv(j) for j in range(r)})
        return o.f['shape'], expand(o.f['shape'], body)

    # ------------------------------------------------------------ indexing
    def norm_index(self, shape, key):
        """key value -> list of per-axis items, with None for newaxis"""
        if type(key) is not tuple:
            key = (key,)
        key = list(key)
        n = 0
        for k in key:
            if k is ELLIPSIS or (type(k) is Node and k.op == 'none'):
                continue
            if type(k) is WhereIdx:
                n += 1
            elif self.is_mask(k):
                n += len(self.arr(k)[0])
            else:
                n += 1
        if ELLIPSIS in key:
            i = key.index(ELLIPSIS)
            key[i:i + 1] = [SliceV(ir.NONE, ir.NONE, ir.NONE)] * (len(shape) - n)
        else:
            key += [SliceV(ir.NONE, ir.NONE, ir.NONE)] * (len(shape) - n)
        return key

    def is_mask(self, k):
        if type(k) is Ref:
            o = self.obj(k)
            return o.kind in ('arr',) and o.f['dtype'] == 'b' or \
                o.kind == 'view' and self.obj(Ref(o.f['base'])).f.get('dtype') == 'b'
        return False

    def dim_index(self, d, idx):
        """index expression of element idx on an axis of size d"""
        k = ir.int_of(idx)
        if k is not None and k < 0:
            return self.dim_pos(d, ir.add(d, idx))
        return self.dim_pos(d, idx)

    def dim_pos(self, d, idx):
        if d.op == 'cnt':
            if idx.op in ('li', 'iv', 'bound') and self.li_dim.get(idx) is d:
                return idx
            if idx.op == 'li':
                return idx
            return raw('nth', d, idx)
        return idx

    def slice_bounds(self, d, s):
        a, b, c = s.a, s.b, s.c
        step = 1
        if c.op != 'none':
            step = ir.int_of(c)
            if step is None:
                return None
        if step < 0:
            start = ir.sub(d, ONE) if a.op == 'none' else a
            if a.op == 'none' and b.op == 'none' and step == -1:
                return start, None, -1, d
            return None
        start = ZERO if a.op == 'none' else a
        stop = d if b.op == 'none' else b
        ks = ir.int_of(start)
        if ks is not None and ks < 0:
            start = ir.add(d, start)
        ke = ir.int_of(stop)
        if ke is not None and ke < 0:
            stop = ir.add(d, stop)
        kd = ir.int_of(d)
        if kd is not None and ke is not None and ke > kd:
            stop = d
        n = ir.sub(stop, start)
        ln = linear(n)
        if not ln:
            n = ZERO
        elif len(ln) == 1:
            (k, c0), = ln.items()
            if k is None:
                n = num(c0)
            elif c0 == 1:
                n = k
        if step != 1:
            n = raw('f:ceildiv', n, num(step))
            kn = ir.int_of(ir.sub(stop, start))
            if kn is not None:
                n = num(-(-kn // step))
        return start, stop, step, n

    def getitem_arr(self, v, key):
        """v[key] for an array reference (not Phi)"""
        shape, body = self.arr(v)
        items = self.norm_index(shape, key)
        fancy = any(type(k) in (WhereIdx, DiagIdx) or
                    (type(k) is not Node and type(k) is not SliceV and k is not ELLIPSIS)
                    for k in items)
        if fancy:
            return self.fancy_get(v, shape, body, items)
        specs = []
        oshape = []
        ax = 0
        full = True
        for k in items:
            if type(k) is Node and k.op == 'none':
                oshape.append(ONE)
                full = False
                continue
            if ax >= len(shape):
                return unk('too many indices', body)
            d = shape[ax]
            if type(k) is Node:
                specs.append(('i', self.dim_index(d, k)))
                full = False
            else:
                if k.a.op == 'none' and k.b.op == 'none' and k.c.op == 'none':
                    specs.append(('f', len(oshape)))
                    oshape.append(d)
                else:
                    sb = self.slice_bounds(d, k)
                    if sb is None:
                        return self.new_arr([unk('slicedim', d)] + list(shape[ax + 1:]), unk('slice', body))
                    start, stop, step, n = sb
                    if step == 1 and lin_same(start, ZERO) and lin_same(stop, d):
                        specs.append(('f', len(oshape)))
                        oshape.append(d)
                    else:
                        specs.append(('s', start, stop, step, len(oshape)))
                        oshape.append(n)
                        full = False
            ax += 1
        if not oshape:
            m = {iv(k): sp[1] for k, sp in enumerate(specs)}
            return subst(body, m)
        return self.make_view(v, specs, tuple(oshape))

    def make_view(self, v, specs, oshape):
        o = self.obj(v)
        if o.kind == 'arr':
            return self.alloc(Obj('view', {'base': v.oid, 'specs': tuple(specs), 'shape': oshape}))
        # compose with an existing view
        new = []
        for sp in o.f['specs']:
            if sp[0] == 'i':
                new.append(sp)
                continue
            j = sp[-1]
            # inner axis j -> outer spec for that axis
            osp = specs[j]
            if sp[0] == 'f':
                new.append(osp)
            else:
                _, a, b, st, _j = sp
                if osp[0] == 'i':
                    new.append(('i', ir.add(a, ir.mul(num(st), osp[1]))))
                elif osp[0] == 'f':
                    new.append(('s', a, b, st, osp[1]))
                elif st == 1:
                    new.append(('s', ir.add(a, osp[1]),
                                ir.add(a, osp[2]) if osp[2] is not None else None, osp[3], osp[4]))
                else:
                    return self.new_arr(oshape, unk('view'))
        return self.alloc(Obj('view', {'base': o.f['base'], 'specs': tuple(new), 'shape': oshape}))

    def fancy_get(self, v, shape, body, items):
        items = [k for k in items]
        # all-axes diagonal
        if all(type(k) is DiagIdx for k in items[:2]) and len(items) >= 2:
            rest = len(shape) - 2
            m = {iv(1): iv(0)}
            for k in range(rest):
                m[iv(k + 2)] = iv(k + 1)
            return self.new_arr((shape[0],) + tuple(shape[2:]), subst(body, m))
        # masks on the leading axis / axes
        if type(items[0]) is WhereIdx or self.is_mask(items[0]):
            k0 = items[0]
            if type(k0) is WhereIdx:
                cond, dims = k0.cond, k0.dims
            else:
                dims, cond = self.arr(k0)
            rest = items[len(dims):] if type(k0) is WhereIdx else items[1:]
            if len(dims) == 1 and all(type(x) is SliceV and x.a.op == x.b.op == 'none' for x in rest):
                return self.new_arr((mask_dim(cond, dims),) + tuple(shape[1:]), body)
            return self.new_arr((unk('maskdim'),), unk('fancy', body))
        # integer index arrays
        if len(items) >= 1 and all(type(x) is SliceV for x in items[1:]):
            try:
                ish, ib = self.arr(items[0])
            except NotArr:
                return unk('fancy', body)
            r = len(ish)
            m = {iv(k): iv(k + r - 1) for k in range(1, len(shape))}
            b2 = subst(body, m)
            if ib.op == 'widx':
                return self.new_arr((ish[0],) + tuple(shape[1:]), body)
            if ib.op == 'pick':
                b3 = lift(lambda i: subst(b2, {iv(0): self.dim_index(shape[0], i)}), ib)
            else:
                b3 = subst(b2, {iv(0): ib})
            return self.new_arr(tuple(ish) + tuple(shape[1:]), b3)
        r = self.index_arrays(shape, body, items)
        if r is not None:
            return r
        return self.new_arr((unk('fancydim'),), unk('fancy', body))

    def index_arrays(self, shape, body, items):
        """neighbouring integer index arrays (and integers), full slices elsewhere"""
        adv, parts = [], []
        if len(items) > len(shape):
            return None
        for k, it in enumerate(items):
            if type(it) is SliceV:
                if not it.a.op == it.b.op == it.c.op == 'none':
                    return None
                continue
            if type(it) is Node:
                if it.op == 'none':
                    return None
                adv.append(k)
                parts.append(((), self.dim_index(shape[k], it)))
                continue
            try:
                ish, ib = self.arr(it)
            except NotArr:
                return None
            if ib.op == 'widx' or self.is_mask(it):
                return None
            adv.append(k)
            parts.append((tuple(ish), lift(lambda i: self.dim_index(shape[k], i), ib)))
        if not adv or adv != list(range(adv[0], adv[0] + len(adv))):
            return None
        ish, bodies = bcast(parts)
        n, lead = len(ish), adv[0]
        tmp = {}
        for k in range(len(shape)):
            if k in adv:
                tmp[iv(k)] = bodies[k - lead] if lead == 0 else subst(bodies[k - lead], {iv(i): iv(i + lead) for i in range(n)})
            elif k > lead:
                tmp[iv(k)] = iv(k - len(adv) + n)
        return self.new_arr(tuple(shape[:lead]) + tuple(ish) + tuple(shape[lead + len(adv):]), subst(body, tmp))

    # ------------------------------------------------------------ writing
    def write_arr(self, v, shape, body):
        """whole-array store through a reference (view writes through)"""
        o = self.obj(v)
        self.note_write(v)
        if o.kind == 'arr':
            sh, (b, _) = bcast([(shape, body), (o.f['shape'], ZERO)])
            self.st.heap.set(v.oid, o.upd(body=expand(o.f['shape'], b)))
            return
        base = Ref(o.f['base'])
        bo = self.obj(base)
        self.note_write(base)
        bshape, old = bo.f['shape'], bo.f['body']
        sh, (b, _) = bcast([(shape, body), (o.f['shape'], ZERO)])
        nb = self.store(bshape, old, o.f['specs'], o.f['shape'], b)
        self.st.heap.set(base.oid, bo.upd(body=expand(bshape, nb)))

    def store(self, bshape, old, specs, vshape, val):
        # val over view axes -> over base axes
        m = {}
        cond = TRUE
        piece = None
        fixed = []
        for k, sp in enumerate(specs):
            if sp[0] == 'f':
                m[iv(sp[1])] = raw('tv', k)
            elif sp[0] == 'i':
                fixed.append((k, sp[1]))
            else:
                _, start, stop, step, j = sp
                if step == 1:
                    if piece is None and (ir.int_of(bshape[k]) is None or ir.int_of(bshape[k]) > SMALL):
                        piece = (k, start, stop)
                        m[iv(j)] = raw('tv', k)
                    else:
                        m[iv(j)] = ir.sub(raw('tv', k), start)
                        cond = ir.and_(cond, ir.and_(ir.le(start, iv(k)), ir.lt(iv(k), stop)))
                elif step == -1:
                    m[iv(j)] = ir.sub(start, raw('tv', k))
                else:
                    return unk('strided store', old, val)
        # new axes of the view (size 1) vanish
        for j in range(len(vshape)):
            if iv(j) not in m:
                m[iv(j)] = ZERO
        val = subst(val, m)
        val = subst(val, {raw('tv', k): iv(k) for k in range(len(bshape))})
        for k, idx in fixed:
            d = ir.int_of(bshape[k])
            if d is not None and d <= SMALL and ir.int_of(idx) is None:
                # unknown index on a small axis
                alts = [lift(ite, ir.eq(idx, num(c)), subst(val, {iv(k): num(c)}),
                             subst(old, {iv(k): num(c)})) for c in range(d)]
                val = pick(iv(k), *alts)
            elif d is not None and d <= SMALL:
                c0 = ir.int_of(idx)
                alts = []
                for c in range(d):
                    oc = subst(old, {iv(k): num(c)})
                    alts.append(val if c == c0 else oc)
                # other conditions still apply only to component c0
                if cond is not TRUE or piece is not None or len(fixed) > 1:
                    pass
                val = _Partial(k, c0, d, val)
        # build result
        parts = []
        while type(val) is _Partial:
            parts.append((val.k, val.c0, val.d))
            val = val.val
        res = self._store2(bshape, old, val, parts, [f for f in fixed if not (
            ir.int_of(bshape[f[0]]) is not None and ir.int_of(bshape[f[0]]) <= SMALL)], cond, piece)
        return res

    def _store2(self, bshape, old, val, parts, fixed, cond, piece):
        if parts:
            k, c0, d = parts[0]
            alts = []
            for c in range(d):
                oc = subst(old, {iv(k): num(c)})
                if c == c0:
                    alts.append(self._store2(bshape, oc, subst(val, {iv(k): num(c)}), parts[1:], fixed, cond, piece))
                else:
                    alts.append(oc)
            return pick(iv(k), *alts)
        for k, idx in fixed:
            cond = ir.and_(cond, ir.eq(iv(k), idx))
        if piece is not None:
            if cond is not TRUE:
                k, a, b = piece
                rel = pcs_read(old, k, a, b)
                cr = subst(cond, {})
                val = lift(ite, cond, val, rel)
            return pcs_write(old, piece[0], piece[1], piece[2], val, bshape[piece[0]])
        if cond is TRUE:
            return val
        return lift(ite, cond, val, old)

    def setitem_arr(self, v, key, value):
        shape, body = self.arr(v)
        items = self.norm_index(shape, key)
        try:
            vs, vb = self.arr(value)
        except NotArr:
            vs, vb = (), unk('stored object')
            if type(value) is Ref or type(value) is Phi:
                vb = raw('objref', 0)
        fancy = any(type(k) in (WhereIdx, DiagIdx) or
                    (type(k) is not Node and type(k) is not SliceV) for k in items)
        self.on_store(v, items, vs, vb)
        if fancy:
            self.fancy_set(v, shape, body, items, vs, vb)
            return
        view = self.getitem_view(v, shape, items)
        if view is None:
            self.write_arr(v, shape, unk('setitem', body, vb))
            return
        # a leading size-1 axis of the value may be dropped by numpy
        tgt = self.obj(view).f['shape']
        while len(vs) > len(tgt) and ir.int_of(vs[0]) == 1:
            vb = subst(vb, {iv(k + 1): iv(k) for k in range(len(vs) - 1)} | {iv(0): ZERO})
            vs = vs[1:]
        self.write_arr(view, vs, vb)

    def getitem_view(self, v, shape, items):
        specs, oshape, ax = [], [], 0
        for k in items:
            if type(k) is Node and k.op == 'none':
                oshape.append(ONE)
                continue
            if ax >= len(shape):
                return None
            d = shape[ax]
            if type(k) is Node:
                specs.append(('i', self.dim_index(d, k)))
            else:
                if k.a.op == 'none' and k.b.op == 'none' and k.c.op == 'none':
                    specs.append(('f', len(oshape)))
                    oshape.append(d)
                else:
                    sb = self.slice_bounds(d, k)
                    if sb is None:
                        return None
                    start, stop, step, n = sb
                    if step == 1 and lin_same(start, ZERO) and lin_same(stop, d):
                        specs.append(('f', len(oshape)))
                    else:
                        specs.append(('s', start, stop, step, len(oshape)))
                    oshape.append(n)
            ax += 1
        return self.make_view(v, specs, tuple(oshape))

    def fancy_set(self, v, shape, body, items, vs, vb):
        if all(type(k) is DiagIdx for k in items[:2]) and len(items) >= 2:
            if len(vs) == 1:
                pass
            nb = lift(ite, ir.eq(iv(0), iv(1)), vb, body)
            self.write_arr(v, shape, nb)
            return
        if type(items[0]) is WhereIdx or self.is_mask(items[0]):
            k0 = items[0]
            if type(k0) is WhereIdx:
                cond, dims = k0.cond, k0.dims
            else:
                dims, cond = self.arr(k0)
            r = len(shape)
            if len(dims) == 1 or len(dims) == r:
                # value aligned with the (compressed) leading axis or a scalar
                if len(vs) < r and len(vs) > 0 and not (len(vs) == 1 and r == 1):
                    vb = shift(vb, r - len(vs), len(vs))
                self.write_arr(v, shape, lift(ite, cond, vb, body))
                return
        elif all(type(x) is SliceV for x in items[1:]):
            try:
                ish, ib = self.arr(items[0])
                if ib.op == 'widx':
                    cond = ib.args[0].args[0]
                    c = raw_lam_cond(cond, len(shape))
                    self.write_arr(v, shape, lift(ite, c, vb, body))
                    return
            except NotArr:
                pass
        self.write_arr(v, shape, unk('fancyset', body, vb))

    # ------------------------------------------------------------ elementwise
    def ewise(self, fn, *vals, **kw):
        items = [self.arr(v) for v in vals]
        if all(len(s) == 0 for s, _ in items) and not any(self.is_arr(v) for v in vals):
            return fn(*[b for _, b in items])
        sh, bodies = bcast(items)
        return self.new_arr(sh, lift(fn, *bodies), kw.get('dtype', 'f'))

    def reduce_sum(self, v, axis=None):
        sh, b = self.arr(v)
        if not sh:
            return b
        if axis is None:
            while sh:
                b = sum_axis(sh, b, len(sh) - 1)
                sh = sh[:-1]
            return b
        ax = ir.int_of(axis)
        if ax is None:
            return unk('sum axis', b)
        if ax < 0:
            ax += len(sh)
        b = sum_axis(sh, b, ax)
        sh = sh[:ax] + sh[ax + 1:]
        if not sh:
            return b
        return self.new_arr(sh, b)


class _Partial(object):
    def __init__(self, k, c0, d, val):
        self.k, self.c0, self.d, self.val = k, c0, d, val


def raw_lam_cond(arrnode, r):
    L = arrnode.args[0]
    return subst(arrnode.args[2], {raw('bound', L, k): iv(k) for k in range(arrnode.args[1])})
