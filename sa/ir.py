"""Value graph: hash-consed nodes of a gated-SSA style intermediate form.

Every scalar the analysed program can compute is one node; two computations
that are syntactically congruent share a node (value numbering).  Arrays are
represented point-wise: the body of an array of rank r is a scalar node over
the index leaves iv(0)..iv(r-1).  Control merges are `ite` gates, loop-carried
values are `mu` leaves closed into `loopval` nodes when the loop is finished.
"""
from fractions import Fraction

LOC = [None]          # current source location (file, line, function)


class Node(object):
    __slots__ = ('op', 'args', 'id', 'leaves', 'bl', 'loc', 'flags')

    def __repr__(self):
        return show(self)


_table = {}
_empty = frozenset()
LEAFOPS = {'iv', 'bound', 'li', 'mu', 'tv'}
# node flags: things about the whole sub-graph that queries need quickly
F_UNK = 1      # contains an unmodelled construct
F_UNINIT = 2   # contains uninitialised memory
F_STALE = 4    # contains a stale (history) atom
F_NONDET = 8   # contains a non-deterministic source


def raw(op, *args):
    key = (op,) + args
    n = _table.get(key)
    if n is not None:
        return n
    n = Node()
    n.op = op
    n.args = args
    n.id = len(_table)
    n.loc = LOC[0]
    bl = 0
    fl = 0
    if op in LEAFOPS:
        n.leaves = frozenset((n,))
    else:
        lv = _empty
        for a in args:
            if type(a) is Node:
                if a.leaves and a.leaves is not lv:
                    lv = lv | a.leaves
                if a.bl > bl:
                    bl = a.bl
                fl |= a.flags
        n.leaves = lv
    if op == 'unk':
        fl |= F_UNK
    elif op == 'uninit':
        fl |= F_UNINIT
    elif op == 'atom':
        k = args[0]
        if k.startswith('stale:'):
            fl |= F_STALE
        elif k.startswith('nondet:'):
            fl |= F_NONDET
    n.flags = fl
    n.bl = bl
    _table[key] = n
    return n


# ----------------------------------------------------------------- constants
def num(v):
    if type(v) is bool:
        return raw('b', v)
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return raw('f:special', repr(v))
        v = Fraction(repr(v))
    return raw('n', Fraction(v))


def string(s):
    return raw('s', s)


NONE = raw('none')
TRUE = raw('b', True)
FALSE = raw('b', False)
ZERO = num(0)
ONE = num(1)
PI = raw('pi')
UNINIT = raw('uninit')


def const(v):
    if v is None:
        return NONE
    if isinstance(v, bool):
        return raw('b', v)
    if isinstance(v, (int, float, Fraction)):
        return num(v)
    if isinstance(v, str):
        return raw('s', v)
    if isinstance(v, bytes):
        return raw('s', v.decode('latin1'))
    return raw('unk', 'const', repr(v))


def is_num(n):
    return n.op == 'n'


def cval(n):
    """python value of a constant node (numbers, strings, bools, None)"""
    if n.op in ('n', 's', 'b'):
        return n.args[0]
    return None


def is_const(n):
    return n.op in ('n', 's', 'b', 'none')


def int_of(n):
    if n.op == 'n' and n.args[0].denominator == 1:
        return int(n.args[0])
    if n.op == 'b':
        return int(n.args[0])
    return None


def atom(name, kind='num'):
    return raw('atom', name, kind)


def unk(why, *args):
    return raw('unk', why, *args)


def iv(k):
    return raw('iv', k)


_cnt = [0]


def fresh():
    _cnt[0] += 1
    return _cnt[0]


def li(loopid):
    return raw('li', loopid)


# --------------------------------------------------------------- arithmetic
def _numlike(n):
    if n.op == 'b':
        return num(int(n.args[0]))
    return n


def add(a, b):
    a = _numlike(a)
    b = _numlike(b)
    if a.op == 'n' and b.op == 'n':
        return num(a.args[0] + b.args[0])
    if a.op == 'n' and a.args[0] == 0:
        return b
    if b.op == 'n' and b.args[0] == 0:
        return a
    if a.op == 's' and b.op == 's':
        return string(a.args[0] + b.args[0])
    if b.op == 'neg' and b.args[0] is a:
        return ZERO
    if a.op == 'neg' and a.args[0] is b:
        return ZERO
    # (x + c1) + c2 , (x - y) + y : keeps index arithmetic canonical
    if b.op == 'n' and a.op == 'add' and a.args[1].op == 'n':
        return add(a.args[0], num(a.args[1].args[0] + b.args[0]))
    if a.op == 'add' and a.args[1].op == 'neg' and a.args[1].args[0] is b:
        return a.args[0]
    if a.op == 'n' and b.op != 'n':
        a, b = b, a
    return raw('add', a, b)


def neg(a):
    a = _numlike(a)
    if a.op == 'n':
        return num(-a.args[0])
    if a.op == 'neg':
        return a.args[0]
    return raw('neg', a)


def sub(a, b):
    if a is b and a.op not in ('unk', 'uninit'):
        return ZERO
    # (x + y) - x -> y   (index arithmetic)
    if a.op == 'add' and a.args[0] is b:
        return a.args[1]
    if a.op == 'add' and a.args[1] is b:
        return a.args[0]
    return add(a, neg(b))


def mul(a, b):
    a = _numlike(a)
    b = _numlike(b)
    if a.op == 'n' and b.op == 'n':
        return num(a.args[0] * b.args[0])
    for x, y in ((a, b), (b, a)):
        if x.op == 'n':
            if x.args[0] == 0:
                return ZERO
            if x.args[0] == 1:
                return y
            if x.args[0] == -1:
                return neg(y)
    if a.op == 's' and b.op == 'n':
        return string(a.args[0] * int(b.args[0]))
    if a is b and a.op == 'f:sqrt':
        return a.args[0]
    if a.id > b.id:
        a, b = b, a
    return raw('mul', a, b)


def div(a, b):
    a = _numlike(a)
    b = _numlike(b)
    if b.op == 'n' and b.args[0] != 0:
        if a.op == 'n':
            return num(a.args[0] / b.args[0])
        if b.args[0] == 1:
            return a
        return mul(a, num(Fraction(1) / b.args[0]))
    if a.op == 'n' and a.args[0] == 0 and b.op != 'n':
        return ZERO
    return raw('div', a, b)


def power(a, b):
    a = _numlike(a)
    b = _numlike(b)
    if b.op == 'n':
        e = b.args[0]
        if e == 0:
            return ONE
        if e == 1:
            return a
        if e.denominator == 1 and 0 < e <= 16:
            r = a
            for _ in range(int(e) - 1):
                r = mul(r, a)
            return r
        if e.denominator == 1 and -16 <= e < 0:
            return div(ONE, power(a, num(-e)))
        if e == Fraction(1, 2):
            return func('sqrt', a)
        if e == Fraction(-1, 2):
            return div(ONE, func('sqrt', a))
    return raw('f:pow', a, b)


DEG = None


def func(name, *args):
    """named scalar function, with the few identities worth having"""
    a = args[0] if args else None
    if a is not None and type(a) is Node:
        if a.op == 'b':
            a = _numlike(a)
            args = (a,) + args[1:]
        if name == 'radians':
            return mul(a, div(PI, num(180)))
        if name == 'degrees':
            return mul(a, div(num(180), PI))
        if name == 'abs':
            if a.op == 'n':
                return num(abs(a.args[0]))
            if a.op == 'neg':
                a = a.args[0]
            return raw('f:abs', a)
        if name == 'sqrt':
            if a.op == 'n' and a.args[0] in (0, 1):
                return a
            if a.op == 'n' and a.args[0] == 4:
                return num(2)
            if a.op == 'mul' and a.args[0] is a.args[1]:
                return func('abs', a.args[0])
        if name in ('sin', 'tan', 'arctan', 'arcsin', 'sinh', 'tanh') and a.op == 'n' and a.args[0] == 0:
            return ZERO
        if name in ('cos', 'exp', 'cosh') and a.op == 'n' and a.args[0] == 0:
            return ONE
        if name == 'cos' and a is PI:
            return num(-1)
        if name == 'sin' and a is PI:
            return ZERO
        if name == 'tan':
            if a.op == 'f:arctan':
                return a.args[0]
            return div(raw('f:sin', a), raw('f:cos', a))
        if name == 'sign' and a.op == 'n':
            v = a.args[0]
            return num((v > 0) - (v < 0))
    return raw('f:' + name, *args)


# ------------------------------------------------------------------ booleans
def not_(a):
    if a.op == 'b':
        return raw('b', not a.args[0])
    if a.op == 'not':
        return a.args[0]
    return raw('not', a)


def and_(a, b):
    if a.op == 'b':
        return b if a.args[0] else a
    if b.op == 'b':
        return a if b.args[0] else b
    if a is b:
        return a
    if not_(a) is b:
        return FALSE
    return raw('and', a, b)


def or_(a, b):
    if a.op == 'b':
        return a if a.args[0] else b
    if b.op == 'b':
        return b if b.args[0] else a
    if a is b:
        return a
    if not_(a) is b:
        return TRUE
    return raw('or', a, b)


def lt(a, b):
    a = _numlike(a)
    b = _numlike(b)
    if is_const(a) and is_const(b) and a.op == b.op and a.op in 'ns':
        return raw('b', a.args[0] < b.args[0])
    if a is b:
        return FALSE
    return raw('lt', a, b)


def le(a, b):
    return not_(lt(b, a))


# constants a given text is compared with
PROBE = None
PROBED = set()


def eq(a, b):
    a2 = _numlike(a)
    b2 = _numlike(b)
    if a2 is b2:
        return TRUE
    if is_const(a2) and is_const(b2):
        if PROBE is not None and (a2 is PROBE or b2 is PROBE):
            PROBED.add(a2 if b2 is PROBE else b2)
        return raw('b', a2.op == b2.op and a2.args == b2.args)
    # an unknown of a known kind never equals a constant of another kind
    for x, y in ((a2, b2), (b2, a2)):
        if y.op in ('s', 'none') and kind_of(x) == 'num':
            return FALSE
        if y.op in ('n', 'none') and kind_of(x) == 'str':
            return FALSE
    for x, y in ((a2, b2), (b2, a2)):
        if y.op in ('s', 'n') and x.op == 'ite' and const_tree(x):
            return ite(x.args[0], eq(x.args[1], y), eq(x.args[2], y))
    if a2.id > b2.id:
        a2, b2 = b2, a2
    return raw('eq', a2, b2)


def const_tree(n, depth=6):
    """a choice between constants"""
    if n.op == 'ite' and depth:
        return const_tree(n.args[1], depth - 1) and const_tree(n.args[2], depth - 1)
    return n.op in ('s', 'n', 'none', 'b')


NUMOPS = {'n', 'add', 'neg', 'mul', 'div', 'pi', 'sum', 'b', 'lt', 'eq', 'not',
          'and', 'or', 'iv', 'li', 'bound'}


def kind_of(n):
    if n.op == 'atom':
        return n.args[1]
    if n.op in NUMOPS or n.op.startswith('f:'):
        return 'num' if not n.op.startswith('f:str') else 'str'
    if n.op == 's':
        return 'str'
    if n.op == 'none':
        return 'none'
    if n.op == 'ite':
        a, b = kind_of(n.args[1]), kind_of(n.args[2])
        return a if a == b else None
    if n.op == 'get':
        return 'num'
    return None


def truth(n):
    if n.op == 'b':
        return n
    if n.op == 'n':
        return raw('b', n.args[0] != 0)
    if n.op == 's':
        return raw('b', n.args[0] != '')
    if n.op == 'none':
        return FALSE
    if n.op in ('lt', 'eq', 'not', 'and', 'or', 'has', 'cond', 'truth', 'f:any', 'f:all', 'f:isnan'):
        return n
    if n.op == 'ite':
        return ite(n.args[0], truth(n.args[1]), truth(n.args[2]))
    if n.op == 'mu' and str(n.args[1]).endswith('?opt'):
        return n
    if n.op == 'loopval' and type(n.args[2]) is Node and n.args[2].op == 'lsys':
        t = n.args[2].args[0]
        if t.op == 'bound' and type(t.args[1]) is int and 3 + 2 * t.args[1] < len(n.args[2].args):
            t = n.args[2].args[3 + 2 * t.args[1]]
        if type(t) is Node and t.op in ('lt', 'eq', 'not', 'and', 'or', 'b'):
            return n
    if n.op == 'atom' and n.args[1] in ('str', 'obj'):
        return TRUE
    if kind_of(n) == 'num':
        return not_(eq(n, ZERO))
    return raw('truth', n)


def ite(c, a, b):
    if c.op == 'b':
        return a if c.args[0] else b
    if a is b:
        return a
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    if a.op == 'b' and b.op == 'b':
        return c if a.args[0] else not_(c)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return raw('ite', c, a, b)


# -------------------------------------------------------------- picks, binders
def pick(idx, *alts):
    k = int_of(idx)
    if k is not None:
        if -len(alts) <= k < len(alts):
            return alts[k]
        return unk('index out of range')
    if all(a is alts[0] for a in alts) and alts:
        return alts[0]
    return raw('pick', idx, *alts)


def bind(op, vars_, body, *extra):
    """close `vars_` (leaf nodes) in body; alpha-canonical"""
    extra_bl = max([e.bl for e in extra if type(e) is Node] or [0])
    L = 1 + max(body.bl, extra_bl)
    m = {}
    for k, v in enumerate(vars_):
        m[v] = raw('bound', L, k)
    b2 = subst(body, m)
    n = raw(op, L, len(vars_), b2, *extra)
    return fix_binder(n, L)


def fix_binder(n, L):
    if n.bl < L:
        n.bl = L
        n.leaves = frozenset(x for x in n.leaves if not (x.op == 'bound' and x.args[0] == L))
    return n


BINDERS = ('arr', 'sum', 'lamv', 'loopval')

_submemo = {}


def subst(n, m, memo=None):
    """replace leaf nodes by mapping m, rebuilding through constructors"""
    if not n.leaves or not m:
        return n
    if n.leaves.isdisjoint(m):
        return n
    if memo is None:
        memo = {}
    return _subst(n, m, memo)


def _subst(n, m, memo):
    if not n.leaves or n.leaves.isdisjoint(m):
        return n
    r = memo.get(n)
    if r is not None:
        return r
    if n in m:
        r = m[n]
    elif n.op in BINDERS:
        args = tuple(_subst(a, m, memo) if type(a) is Node else a for a in n.args)
        r = fix_binder(raw(n.op, *args), n.args[0])
        # bound level must stay above inner levels
        inner = max([a.bl for a in args if type(a) is Node] or [0])
        if inner >= n.args[0]:
            L2 = inner + 1
            m2 = {}
            for a in args:
                if type(a) is Node:
                    for lf in a.leaves:
                        if lf.op == 'bound' and lf.args[0] == n.args[0]:
                            m2[lf] = raw('bound', L2, lf.args[1])
            args = tuple(subst(a, m2) if type(a) is Node else a for a in args)
            r = fix_binder(raw(n.op, L2, *args[1:]), L2)
    else:
        args = tuple(_subst(a, m, memo) if type(a) is Node else a for a in n.args)
        r = rebuild(n.op, args)
    memo[n] = r
    return r


def rebuild(op, args):
    f = _builders.get(op)
    if f is not None:
        return f(*args)
    if op.startswith('f:'):
        return func(op[2:], *args)
    return raw(op, *args)


_builders = {'add': add, 'neg': neg, 'mul': mul, 'div': div, 'not': not_, 'and': and_,
             'or': or_, 'lt': lt, 'eq': eq, 'ite': ite, 'pick': pick, 'truth': truth,
             'f:pow': power}


def replace_nodes(n, m, memo=None):
    """replace arbitrary sub-nodes (not only leaves) by identity map"""
    if memo is None:
        memo = {}
    r = memo.get(n)
    if r is not None:
        return r
    if n in m:
        r = m[n]
    else:
        ch = False
        args = []
        for a in n.args:
            if type(a) is Node:
                b = replace_nodes(a, m, memo)
                ch = ch or b is not a
                args.append(b)
            else:
                args.append(a)
        if not ch:
            r = n
        elif n.op in BINDERS:
            r = fix_binder(raw(n.op, *args), n.args[0])
        else:
            r = rebuild(n.op, tuple(args))
    memo[n] = r
    return r


def lift(fn, *bodies):
    """apply fn pointwise, distributing over component picks (iv index)"""
    best = None
    for b in bodies:
        if b.op == 'pick' and b.args[0].op == 'iv':
            if best is None or b.args[0].args[0] < best.args[0].args[0]:
                best = b
    if best is None:
        return fn(*bodies)
    idx = best.args[0]
    k = len(best.args) - 1
    alts = []
    for c in range(k):
        m = {idx: num(c)}
        alts.append(lift(fn, *[subst(b, m) for b in bodies]))
    return pick(idx, *alts)


def walk(n, seen=None):
    """all nodes of the sub-graph"""
    if seen is None:
        seen = set()
    stack = [n]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for a in x.args:
            if type(a) is Node and a not in seen:
                stack.append(a)


def show(n, d=6):
    if n.op == 'n':
        v = n.args[0]
        return str(v) if v.denominator == 1 else repr(float(v))
    if n.op in ('s', 'b'):
        return repr(n.args[0])
    if n.op == 'atom':
        return n.args[0]
    if n.op in ('none', 'pi', 'uninit'):
        return n.op
    if d <= 0:
        return '..#%d' % n.id
    return '%s(%s)' % (n.op, ','.join(show(a, d - 1) if type(a) is Node else str(a) for a in n.args))
