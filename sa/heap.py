"""Abstract heap: persistent (copy-on-write) map from object ids to immutable
object records, so that control-flow branches share state and joins only look
at what differs."""
from . import ir
from .ir import Node, ite, FALSE, TRUE

BITS = 5
W = 1 << BITS
DEPTH = 5            # 32**5 ids
_NIL = (None,) * W


class Heap(object):
    __slots__ = ('root',)

    def __init__(self, root=None):
        self.root = root

    def get(self, oid):
        n = self.root
        sh = BITS * (DEPTH - 1)
        while sh >= 0:
            if n is None:
                return None
            n = n[(oid >> sh) & (W - 1)]
            sh -= BITS
        return n

    def set(self, oid, val):
        self.root = _set(self.root, oid, val, BITS * (DEPTH - 1))

    def diff(self, other):
        out = []
        _diff(self.root, other.root, BITS * (DEPTH - 1), 0, out)
        return out


def _set(n, oid, val, sh):
    if n is None:
        n = _NIL
    i = (oid >> sh) & (W - 1)
    if sh == 0:
        return n[:i] + (val,) + n[i + 1:]
    return n[:i] + (_set(n[i], oid, val, sh - BITS),) + n[i + 1:]


def _diff(a, b, sh, base, out):
    if a is b:
        return
    a = a or _NIL
    b = b or _NIL
    for i in range(W):
        x, y = a[i], b[i]
        if x is y:
            continue
        if sh == 0:
            out.append(base + i)
        else:
            _diff(x, y, sh - BITS, base + (i << sh), out)


_oid = [0]


def new_oid():
    _oid[0] += 1
    return _oid[0]


class Obj(object):
    """immutable by convention"""
    __slots__ = ('kind', 'f', 'x')

    def __init__(self, kind, f, x=None):
        self.kind = kind
        self.f = f
        self.x = x

    def put(self, k, v):
        f = dict(self.f)
        f[k] = v
        return Obj(self.kind, f, self.x)

    def rem(self, k):
        f = dict(self.f)
        f.pop(k, None)
        return Obj(self.kind, f, self.x)

    def upd(self, **kw):
        f = dict(self.f)
        f.update(kw)
        return Obj(self.kind, f, self.x)


class Ref(object):
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return type(o) is Ref and o.oid == self.oid

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self.oid

    def __repr__(self):
        return '@%d' % self.oid


class Phi(object):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'Phi(%r,%r,%r)' % (self.c, self.a, self.b)


class _Undef(object):
    def __repr__(self):
        return 'Undef'


UNDEF = _Undef()


class Func(object):
    def __init__(self, node, mod, closure, defaults, kwdefaults, name, cls=None, kind=None):
        self.node, self.mod, self.closure = node, mod, closure
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.name, self.cls, self.kind = name, cls, kind

    def __repr__(self):
        return '<func %s>' % self.name


class Bound(object):
    def __init__(self, fn, slf):
        self.fn, self.slf = fn, slf

    def __eq__(self, o):
        return type(o) is Bound and o.fn is self.fn and o.slf == self.slf

    def __hash__(self):
        return hash(id(self.fn))


class ClassV(object):
    def __init__(self, name, oid, bases):
        self.name, self.oid, self.bases = name, oid, bases

    def __repr__(self):
        return '<class %s>' % self.name


class ModV(object):
    def __init__(self, name, oid):
        self.name, self.oid = name, oid


class Ext(object):
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return type(o) is Ext and o.path == self.path

    def __hash__(self):
        return hash(self.path)

    def __repr__(self):
        return '<ext %s>' % self.path


class BuiltinMethod(object):
    """method of a built-in object: (receiver value, name)"""
    __slots__ = ('recv', 'name')

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class SliceV(object):
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class EllipsisV(object):
    pass


ELLIPSIS = EllipsisV()


class WhereIdx(object):
    """index array produced by where(cond) on axis `ax` of a rank-r condition"""
    def __init__(self, cond, dims, ax=0):
        self.cond, self.dims, self.ax = cond, dims, ax

    def count(self):
        return mask_dim(self.cond, self.dims)


class DiagIdx(object):
    pass


class ExcV(object):
    def __init__(self, name, args=(), implicit=False, loc=None):
        self.name, self.args, self.implicit = name, args, implicit
        self.loc = loc or ir.LOC[0]

    def __repr__(self):
        return '<exc %s%s @%s>' % (self.name, ' implicit' if self.implicit else '', self.loc)


class SymSeq(object):
    """symbolic-length iterable: count node, elem(index node)->value"""
    def __init__(self, count, elem):
        self.count, self.elem = count, elem


def mask_dim(cond, dims):
    r = len(dims)
    vs = [ir.iv(k) for k in range(r)]
    return ir.raw('cnt', ir.bind('arr', vs, cond, *dims))


def same(a, b):
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is not tb:
        return False
    if ta is Ref:
        return a.oid == b.oid
    if ta is tuple:
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if ta is Phi:
        return a.c is b.c and same(a.a, b.a) and same(a.b, b.b)
    if ta in (Bound, Ext):
        return a == b
    if ta is SliceV:
        return same(a.a, b.a) and same(a.b, b.b) and same(a.c, b.c)
    if ta is WhereIdx:
        return a.cond is b.cond and a.dims == b.dims and a.ax == b.ax
    if ta is Func:
        return a.node is b.node and a.closure == b.closure
    if ta in (str, int, bool, type(None), float):
        return a == b
    return False


def merge_val(c, a, b):
    if same(a, b):
        return a
    if type(a) is Node and type(b) is Node:
        return ite(c, a, b)
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        return tuple(merge_val(c, x, y) for x, y in zip(a, b))
    if c.op == 'b':
        return a if c.args[0] else b
    if c.op == 'not':
        return merge_val(c.args[0], b, a)
    if type(a) is Phi and a.c is c:
        a = a.a
    if type(b) is Phi and b.c is c:
        b = b.b
    if same(a, b):
        return a
    return Phi(c, a, b)


def merge_obj(c, a, b):
    if a is b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    if a.kind != b.kind:
        return Obj('ext', {}, 'merged:%s/%s' % (a.kind, b.kind))
    if a.kind == 'dict':
        f = {}
        for k in list(a.f) + [k for k in b.f if k not in a.f]:
            pa, va = a.f.get(k, (FALSE, UNDEF))
            pb, vb = b.f.get(k, (FALSE, UNDEF))
            p = ite(c, pa, pb)
            if va is UNDEF or pa is FALSE:
                v = vb
            elif vb is UNDEF or pb is FALSE:
                v = va
            else:
                v = merge_val(c, va, vb)
            f[k] = (p, v)
        return Obj('dict', f, a.x if a.x == b.x else ('merged', a.x, b.x) if (a.x or b.x) else None)
    if a.kind == 'list':
        ia, ib = a.f.get('items'), b.f.get('items')
        if a.x is None and b.x is None and len(ia) == len(ib):
            return Obj('list', {'items': tuple(merge_val(c, x, y) for x, y in zip(ia, ib))}, None)
        if a.x == b.x and len(ia) == len(ib) and same(a.f.get('pend', ()), b.f.get('pend', ())):
            return Obj('list', dict(a.f, items=tuple(merge_val(c, x, y) for x, y in zip(ia, ib))), a.x)
        return Obj('list', {'items': (), 'phi': (c, a, b)}, 'phi')
    if a.kind == 'arr':
        if a.f['shape'] == b.f['shape']:
            return Obj('arr', {'shape': a.f['shape'], 'dtype': a.f['dtype'],
                               'body': ir.lift(ir.ite, c, a.f['body'], b.f['body'])}, a.x)
    f = {}
    for k in list(a.f) + [k for k in b.f if k not in a.f]:
        f[k] = merge_val(c, a.f.get(k, UNDEF), b.f.get(k, UNDEF))
    return Obj(a.kind, f, a.x)


class State(object):
    __slots__ = ('heap', 'pc')

    def __init__(self, heap, pc=()):
        self.heap, self.pc = heap, pc

    def fork(self):
        return State(Heap(self.heap.root), self.pc)

    def assume(self, c):
        if c.op == 'b':
            return
        if c.op == 'and':
            self.assume(c.args[0])
            self.assume(c.args[1])
            return
        if c.op == 'not' and c.args[0].op == 'or':
            self.assume(ir.not_(c.args[0].args[0]))
            self.assume(ir.not_(c.args[0].args[1]))
            return
        if c not in self.pc:
            self.pc = self.pc + (c,)

    def decide(self, c):
        """value of condition c under the path facts, simplified"""
        if c.op == 'b' or not self.pc:
            return c
        if c in self.pc:
            return TRUE
        if ir.not_(c) in self.pc:
            return FALSE
        if c.op == 'and':
            return ir.and_(self.decide(c.args[0]), self.decide(c.args[1]))
        if c.op == 'or':
            return ir.or_(self.decide(c.args[0]), self.decide(c.args[1]))
        if c.op == 'not':
            return ir.not_(self.decide(c.args[0]))
        if c.op == 'ite':
            k = self.decide(c.args[0])
            return ite(k, self.decide(c.args[1]), self.decide(c.args[2]))
        return c


def merge_states(c, s1, s2):
    """state that is s1 when c else s2"""
    if c.op == 'b':
        return s1 if c.args[0] else s2
    h = Heap(s2.heap.root)
    for oid in s1.heap.diff(s2.heap):
        h.set(oid, merge_obj(c, s1.heap.get(oid), s2.heap.get(oid)))
    p2 = set(s2.pc)
    pc = tuple(x for x in s1.pc if x in p2)
    return State(h, pc)


def conj(lits):
    r = TRUE
    for x in lits:
        r = ir.and_(r, x)
    return r
