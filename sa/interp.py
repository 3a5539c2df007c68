"""Flow- and context-sensitive abstract interpreter for the Python subset used
by the analysed package.  It does not run the program: every statement is a
transfer function over (abstract heap, path facts); branches are joined with
gates, loops are solved by a fixpoint over the set of loop-carried cells, and
the result is a value graph (sa.ir)."""
import ast
import os

from . import ir
from .ir import (Node, NONE, TRUE, FALSE, ZERO, ONE, num, string, ite, raw, unk,
                 truth, not_, and_, or_, int_of, cval, is_const)
from .heap import (Heap, Obj, Ref, Phi, UNDEF, Func, Bound, ClassV, ModV, Ext,
                   BuiltinMethod, SliceV, ELLIPSIS, WhereIdx, DiagIdx, ExcV, SymSeq,
                   State, merge_states, merge_val, conj, same, new_oid)
from .arrays import ArrayOps, NotArr, linear
from .npmodel import NpModel


class Dead(Exception):
    """the current abstract path has no continuation"""


class Undecided(Exception):
    pass


EXC_BASES = {
    'KeyError': 'LookupError', 'IndexError': 'LookupError', 'LookupError': 'Exception',
    'AttributeError': 'Exception', 'TypeError': 'Exception', 'ValueError': 'Exception',
    'UnboundLocalError': 'NameError', 'NameError': 'Exception', 'RuntimeError': 'Exception',
    'RecursionError': 'RuntimeError', 'NotImplementedError': 'RuntimeError',
    'IOError': 'Exception', 'OSError': 'Exception', 'FileNotFoundError': 'OSError',
    'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception',
    'AssertionError': 'Exception', 'StopIteration': 'Exception', 'Exception': 'BaseException',
    'ImportError': 'Exception', 'ModuleNotFoundError': 'ImportError', 'OverflowError': 'ArithmeticError',
    'UserWarning': 'Warning', 'Warning': 'Exception', 'numpy.linalg.LinAlgError': 'Exception',
    'FloatingPointError': 'ArithmeticError', 'PermissionError': 'OSError',
    'UnicodeDecodeError': 'ValueError', 'json.JSONDecodeError': 'ValueError',
}


def exc_isa(name, base):
    while name is not None:
        if name == base or {name, base} == {'IOError', 'OSError'}:
            return True
        name = EXC_BASES.get(name)
    return False


class Frame(object):
    def __init__(self, env, mod, name, func=None):
        self.env = env
        self.mod = mod
        self.name = name
        self.func = func
        self.returns = []
        self.loops = []
        self.globals = ()
        self.locals = ()


class LoopCtx(object):
    def __init__(self):
        self.breaks = []
        self.continues = []


class LoopRec(object):
    """record kept for the loop analyses"""
    def __init__(self, **kw):
        self.__dict__.update(kw)


BUILTINS = {'len', 'range', 'enumerate', 'zip', 'list', 'dict', 'tuple', 'set', 'sorted', 'sum', 'abs',
            'min', 'max', 'round', 'float', 'int', 'str', 'bool', 'print', 'isinstance', 'hasattr',
            'getattr', 'setattr', 'open', 'any', 'all', 'map', 'filter', 'reversed', 'type', 'super', 'iter',
            'next', 'object', 'property', 'staticmethod', 'classmethod', 'slice', 'id', 'callable',
            'frozenset', 'divmod', 'pow', 'complex', 'repr', 'format', 'vars', 'issubclass', 'hash', 'input', 'dir',
            'bytes', 'locals', 'globals', 'NotImplemented', 'ascii', 'ord', 'chr', 'delattr', 'bytearray'}

UNROLL = 64          # elements of a sequence
ITER = 24            # iterations of a counted loop


class Interp(ArrayOps, NpModel):
    def __init__(self, roots):
        """roots: {package name: directory}"""
        self.roots = roots
        self.st = State(Heap())
        self.sink = []          # raised (ExcV, State)
        self.events = []
        self.frames = []
        self.mods = {}
        self.li_dim = {}
        self.loops = []
        self.callstack = []
        self.summaries = {}     # function qualname -> python callable(interp, args, kwargs)
        self.calls_seen = {}
        self.stores = []
        self.nloop = 0
        self.files_read = set()
        self.nsteps = 0
        self.json_loader = None
        self.fs = self.alloc(Obj('fs', {}))
        self.quiet_stores = False
        self.max_steps = 4000000
        self.funcs_analysed = set()
        self.unk_sites = {}
        self.rec_limit = 3

    # -------------------------------------------------------------- modules
    def find_module(self, name):
        parts = name.split('.')
        base = self.roots.get(parts[0])
        if base is None:
            return None
        p = os.path.join(base, *parts[1:]) if len(parts) > 1 else base
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        if os.path.exists(p + '.py'):
            return p + '.py'
        return None

    def load_module(self, name):
        if name in self.mods:
            return self.mods[name]
        path = self.find_module(name)
        if path is None:
            return None
        with open(path) as f:
            src = f.read()
        self.files_read.add(path)
        return self.load_source(name, path, src)

    def load_source(self, name, path, src):
        tree = ast.parse(src, path)
        oid = self.alloc(Obj('module', {'__name__': string(name)}, name)).oid
        mod = ModV(name, oid)
        mod.path = path
        mod.ispkg = path.endswith('__init__.py')
        self.mods[name] = mod
        fr = Frame(oid, mod, '<module %s>' % name)
        annotate(tree, path)
        self.frames.append(fr)
        try:
            self.exec_block(tree.body)
        finally:
            self.frames.pop()
        if '.' in name:
            parent = self.load_module(name.rsplit('.', 1)[0])
            if parent is not None:
                self.setf(parent.oid, name.rsplit('.', 1)[1], mod)
        return mod

    # ----------------------------------------------------------- heap access
    def setf(self, oid, k, v):
        o = self.st.heap.get(oid)
        self.st.heap.set(oid, o.put(k, v))

    @property
    def fr(self):
        return self.frames[-1]

    def note_write(self, ref):
        pass

    def on_store(self, ref, items, shape, body):
        if not self.quiet_stores:
            self.stores.append((ref.oid, tuple(items), body, ir.LOC[0], self.st.pc))

    # ------------------------------------------------------------ exceptions
    def throw(self, exc):
        self.sink.append((exc, self.st))
        raise Dead()

    def implicit(self, name, *args):
        self.throw(ExcV(name, tuple(args), True))

    def maybe_throw(self, cond, name, *args):
        """raise when cond holds; continue assuming it does not"""
        cond = self.st.decide(cond)
        if cond is FALSE:
            return
        if cond is TRUE:
            self.implicit(name, *args)
        s = self.st.fork()
        s.assume(cond)
        self.sink.append((ExcV(name, tuple(args), True), s))
        self.st.assume(not_(cond))

    # --------------------------------------------------------------- branch
    def branch(self, c, fa, fb):
        c = self.st.decide(c)
        if c is TRUE:
            return fa()
        if c is FALSE:
            return fb()
        s0 = self.st
        res = []
        for cond, f in ((c, fa), (not_(c), fb)):
            self.st = s0.fork()
            self.st.assume(cond)
            try:
                v = f()
                res.append((v, self.st))
            except Dead:
                res.append(None)
        a, b = res
        if a is None and b is None:
            raise Dead()
        if a is None:
            self.st = b[1]
            return b[0]
        if b is None:
            self.st = a[1]
            return a[0]
        self.st = merge_states(c, a[1], b[1])
        return self.mval(c, a[0], b[0])

    def mval(self, c, a, b):
        if a is UNDEF or b is UNDEF:
            return a if a is b else Phi(c, a, b)
        v = merge_val(c, a, b)
        return v

    def phi(self, v, fn):
        """apply fn to every alternative of a (possibly) gated value"""
        if type(v) is Phi:
            return self.branch(v.c, lambda: self.phi(v.a, fn), lambda: self.phi(v.b, fn))
        return fn(v)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for s in stmts:
            if self.st is None:
                return
            try:
                self.exec(s)
            except Dead:
                self.st = None

    def exec(self, s):
        self.nsteps += 1
        if self.nsteps > self.max_steps:
            raise Undecided('step budget')
        ir.LOC[0] = s._loc
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.unk_sites[s._loc] = type(s).__name__
            return
        m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Global(self, s):
        pass

    s_Nonlocal = s_Global

    def s_Import(self, s):
        for a in s.names:
            top = a.name.split('.')[0]
            m = self.load_module(top)
            if m is not None:
                full = self.load_module(a.name) or m
                self.bind_name(a.asname or top, full if a.asname else m)
            else:
                self.bind_name(a.asname or top, Ext(canon_ext(a.name if a.asname else top)))

    def s_ImportFrom(self, s):
        name = s.module or ''
        if s.level:
            base = self.fr.mod.name.split('.')
            up = s.level - (1 if getattr(self.fr.mod, 'ispkg', False) else 0)
            if up:
                base = base[:-up]
            name = '.'.join(base + ([name] if name else []))
        m = self.load_module(name)
        for a in s.names:
            if m is not None:
                if a.name == '*':
                    for k, v in self.st.heap.get(m.oid).f.items():
                        if not k.startswith('_'):
                            self.bind_name(k, v)
                    continue
                v = self.st.heap.get(m.oid).f.get(a.name)
                if v is None:
                    v = self.load_module(name + '.' + a.name)
                if v is None:
                    v = Ext('missing.' + a.name)
                self.bind_name(a.asname or a.name, v)
            else:
                self.bind_name(a.asname or a.name, Ext(canon_ext(name + '.' + a.name)))

    def s_FunctionDef(self, s):
        f = self.make_func(s, s.name)
        for d in reversed(s.decorator_list):
            if isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property'):
                f = Func(f.node, f.mod, f.closure, f.defaults, f.kwdefaults, f.name, f.cls, d.id)
            elif isinstance(d, ast.Attribute) and d.attr == 'setter':
                old = self.st.heap.get(self.fr.env).f.get(s.name)
                g = Func(old.node, old.mod, old.closure, old.defaults, old.kwdefaults, old.name, old.cls, 'property')
                g.setter = f
                f = g
            else:
                dv = self.ev(d)
                if type(dv) is Ext and dv.path.startswith('functools.wraps'):
                    continue
                f = self.call(dv, [f], {})
        self.bind_name(s.name, f)

    def make_func(self, node, name):
        a = node.args
        defaults = [self.ev(d) for d in a.defaults]
        kwd = {}
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[k.arg] = self.ev(d)
        return Func(node, self.fr.mod, self.fr.env, defaults, kwd,
                    (self.fr.name + '.' if not self.fr.name.startswith('<') else '') + name)

    def s_ClassDef(self, s):
        bases = [self.ev(b) for b in s.bases]
        ref = self.alloc(Obj('class', {}, self.fr.env))
        fr = Frame(ref.oid, self.fr.mod, s.name)
        fr.isclass = True
        self.frames.append(fr)
        try:
            self.exec_block(s.body)
        finally:
            self.frames.pop()
        cls = ClassV(s.name, ref.oid, bases)
        cls.mod = self.fr.mod.name
        o = self.st.heap.get(ref.oid)
        f = {}
        for k, v in o.f.items():
            if type(v) is Func and v.cls is None:
                v.cls = cls
            f[k] = v
        self.st.heap.set(ref.oid, Obj('class', f, cls))
        self.bind_name(s.name, cls)

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        self.fr.returns.append((v, self.st))
        raise Dead()

    def s_Raise(self, s):
        if s.exc is None:
            cur = getattr(self.fr, 'cur_exc', None) or ExcV('Exception')
            self.sink.append((cur, self.st))
            raise Dead()
        v = self.ev(s.exc)
        self.sink.append((self.as_exc(v), self.st))
        raise Dead()

    def as_exc(self, v):
        if type(v) is ExcV:
            return ExcV(v.name, v.args, False)
        if type(v) is Ext:
            return ExcV(v.path.split('.')[-1] if v.path.startswith('builtins.') else v.path)
        if type(v) is ClassV:
            return ExcV(self.exc_class(v))
        if type(v) is Ref:
            o = self.obj(v)
            if o.kind == 'inst':
                return ExcV(self.exc_class(o.x))
        return ExcV('Exception')

    def exc_class(self, cls):
        for b in cls.bases:
            if type(b) is Ext:
                EXC_BASES.setdefault(cls.name, b.path.split('.')[-1])
            elif type(b) is ClassV:
                EXC_BASES.setdefault(cls.name, self.exc_class(b))
        return cls.name

    def s_Assert(self, s):
        c = self.truth(self.ev(s.test))
        self.maybe_throw_explicit(not_(c), 'AssertionError')

    def maybe_throw_explicit(self, c, name):
        n = len(self.sink)
        self.maybe_throw(c, name)
        for k in range(n, len(self.sink)):
            self.sink[k] = (ExcV(name, (), False), self.sink[k][1])

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                o = self.st.heap.get(self.fr.env)
                self.st.heap.set(self.fr.env, o.rem(t.id))
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value)
                key = self.ev_index(t.slice)
                self.phi(base, lambda b: self.del_item(b, key))
            elif isinstance(t, ast.Attribute):
                base = self.ev(t.value)

                def de(b):
                    if type(b) is Ref:
                        self.st.heap.set(b.oid, self.obj(b).rem(t.attr))
                    return NONE
                self.phi(base, de)

    def del_item(self, b, key):
        if type(b) is Ref:
            o = self.obj(b)
            if o.kind == 'dict':
                k = self.hkey(key)
                if k is not None:
                    p, v = o.f.get(k, (FALSE, UNDEF))
                    self.maybe_throw(not_(p), 'KeyError', string(str(k)))
                    o = self.obj(b)
                    f = dict(o.f)
                    f.pop(k, None)
                    self.note_write(b)
                    self.st.heap.set(b.oid, Obj('dict', f, o.x))
            elif o.kind == 'list' and o.x is None:
                i = int_of(key) if type(key) is Node else None
                if i is not None:
                    it = list(o.f['items'])
                    del it[i]
                    self.st.heap.set(b.oid, Obj('list', {'items': tuple(it)}))
        return NONE

    # -- assignment
    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id)
            v = self.ev(s.value)
            r = self.aug(op, cur, v)
            if r is not cur:
                self.bind_name(t.id, r)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            cur = self.get_attr(base, t.attr)
            v = self.ev(s.value)
            r = self.aug(op, cur, v)
            if r is not cur:
                self.set_attr(base, t.attr, r)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            key = self.ev_index(t.slice)
            cur = self.get_item(base, key)
            v = self.ev(s.value)
            r = self.aug(op, cur, v)
            self.set_item(base, key, r)

    def aug(self, op, cur, v):
        """in-place operator: arrays and lists mutate"""
        if type(cur) is Phi:
            return self.phi(cur, lambda c: self.aug(op, c, v))
        if type(cur) is Ref:
            o = self.obj(cur)
            if o.kind in ('arr', 'view'):
                sh = o.f['shape']
                r = self.binop(op, cur, v)
                rs, rb = self.arr(r)
                self.write_arr(cur, rs, rb)
                return cur
            if o.kind == 'list' and op == 'Add':
                self.list_extend(cur, v)
                return cur
        return self.binop(op, cur, v)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.bind_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            self.set_item(base, self.ev_index(t.slice), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def unpack(self, elts, v):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        seq = self.to_seq(v, None if star else n)
        if seq is None:
            for e in elts:
                self.assign(e, unk('unpack', self.freeze(v)))
            return
        if star:
            k = star[0]
            tail = n - k - 1
            for e, x in zip(elts[:k], seq[:k]):
                self.assign(e, x)
            self.assign(elts[k], self.new_list(seq[k:len(seq) - tail]))
            for e, x in zip(elts[k + 1:], seq[len(seq) - tail:]):
                self.assign(e, x)
            return
        if len(seq) != n:
            self.implicit('ValueError', string('unpack'))
        for e, x in zip(elts, seq):
            self.assign(e, x)

    def to_seq(self, v, n=None):
        """known-length element list of a value, or None"""
        if type(v) is tuple:
            return list(v)
        if type(v) is Phi:
            a = self.branch(v.c, lambda: self.seq_t(v.a, n), lambda: self.seq_t(v.b, n))
            if type(a) is tuple:
                return list(a)
            return None
        if type(v) is Ref:
            o = self.obj(v)
            if o.kind == 'list' and o.x is None:
                return list(o.f['items'])
            if o.kind in ('arr', 'view'):
                sh, _ = self.arr(v)
                d = int_of(sh[0]) if sh else None
                if d is None and n is not None and sh:
                    d = n
                if d is not None and d <= UNROLL:
                    return [self.get_item(v, num(k)) for k in range(d)]
                return None
            if o.kind == 'dict':
                ks = self.dict_keys(v)
                if all(p is TRUE for k, p in ks):
                    return [self.unkey(k) for k, p in ks]
                return None
        if type(v) is SymSeq:
            d = int_of(v.count)
            if d is not None and d <= UNROLL:
                return [v.elem(num(k)) for k in range(d)]
            return None
        if type(v) is Node:
            if v.op == 's':
                return [string(c) for c in v.args[0]]
            if n is not None and v.op in ('get', 'unk') or (n is not None and v.op.startswith('f:ext')):
                return [raw('get', v, num(k)) for k in range(n)]
        if type(v) is WhereIdx and n is not None:
            return None
        return None

    def seq_t(self, v, n):
        s = self.to_seq(v, n)
        return tuple(s) if s is not None else NONE

    # -- control flow
    def s_If(self, s):
        c = self.truth(self.ev(s.test))
        c = self.st.decide(c)
        if c is TRUE:
            self.exec_block(s.body)
            return
        if c is FALSE:
            self.exec_block(s.orelse)
            return
        s0 = self.st
        self.st = s0.fork()
        self.st.assume(c)
        self.exec_block(s.body)
        a = self.st
        self.st = s0.fork()
        self.st.assume(not_(c))
        self.exec_block(s.orelse)
        b = self.st
        self.join(c, a, b)

    def join(self, c, a, b):
        if a is None:
            self.st = b
        elif b is None:
            self.st = a
        else:
            self.st = merge_states(c, a, b)

    def merge_exits(self, exits, entry_pc):
        """exits: [(value, State)] in program order -> (value, State)"""
        if not exits:
            return None
        base = set(entry_pc)
        v, st = exits[-1]
        for v2, s2 in reversed(exits[:-1]):
            c = conj([x for x in s2.pc if x not in base])
            if c is TRUE:
                v, st = v2, s2
                continue
            v = self.mval(c, v2, v) if not (v2 is None and v is None) else None
            st = merge_states(c, s2, st)
        # facts that hold at entry still hold
        pc = tuple(x for x in st.pc)
        st = State(st.heap, pc)
        return v, st

    def s_With(self, s):
        items = []
        for it in s.items:
            v = self.ev(it.context_expr)
            if type(v) is Ref and self.obj(v).kind == 'inst':
                m = self.find_method(v, '__enter__')
                e = self.call(m, [], {}) if m is not None else v
            else:
                e = v
            if it.optional_vars is not None:
                self.assign(it.optional_vars, e)
            items.append(v)

        def fin():
            for v in reversed(items):
                if type(v) is Ref and self.obj(v).kind == 'file':
                    self.file_close(v)
                elif type(v) is Ref and self.obj(v).kind == 'inst':
                    m = self.find_method(v, '__exit__')
                    if m is not None:
                        self.call(m, [NONE, NONE, NONE], {})
        self.protected(lambda: self.exec_block(s.body), fin)

    def protected(self, body, fin):
        """run body; run fin on every way out"""
        fr = self.fr
        nret = len(fr.returns)
        nsink = len(self.sink)
        lp = fr.loops[-1] if fr.loops else None
        nb = len(lp.breaks) if lp else 0
        nc = len(lp.continues) if lp else 0
        try:
            body()
        except Dead:
            self.st = None

        def run_on(st):
            save = self.st
            self.st = st.fork()
            try:
                fin()
            except Dead:
                self.st = None
            out = self.st
            self.st = save
            return out
        # the signals recorded while running fin itself stay as they are
        todo = []
        for lst, n in ((fr.returns, nret), (self.sink, nsink)):
            old = lst[n:]
            del lst[n:]
            todo.append((lst, old))
        for lst, old in todo:
            for v, st in old:
                o = run_on(st)
                if o is not None:
                    lst.append((v, o))
        if lp:
            for lst, n in ((lp.breaks, nb), (lp.continues, nc)):
                old = lst[n:]
                del lst[n:]
                for st in old:
                    o = run_on(st)
                    if o is not None:
                        lst.append(o)
        if self.st is not None:
            try:
                fin()
            except Dead:
                self.st = None

    def s_Try(self, s):
        def body():
            sink0 = self.sink
            self.sink = []
            entry_pc = self.st.pc
            self.exec_block(s.body)
            mine = self.sink
            self.sink = sink0
            if self.st is not None and s.orelse:
                self.exec_block(s.orelse)
            normal = self.st
            outs = []
            for exc, st in mine:
                h = self.match_handler(exc, s.handlers)
                if h is None:
                    self.sink.append((exc, st))
                    continue
                cond_pc = [x for x in st.pc if x not in entry_pc]
                self.st = st.fork()
                if h.name:
                    self.bind_name(h.name, exc)
                old = getattr(self.fr, 'cur_exc', None)
                self.fr.cur_exc = exc
                self.exec_block(h.body)
                self.fr.cur_exc = old
                if self.st is not None:
                    outs.append((conj(cond_pc), self.st))
            st = normal
            for c, o in reversed(outs):
                if st is None or c is TRUE:
                    st = o
                else:
                    st = merge_states(c, o, st)
            self.st = st
        if s.finalbody:
            self.protected(body, lambda: self.exec_fin(s.finalbody))
        else:
            body()

    def exec_fin(self, b):
        self.exec_block(b)
        if self.st is None:
            raise Dead()

    def match_handler(self, exc, handlers):
        for h in handlers:
            if h.type is None:
                return h
            types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            for t in types:
                try:
                    save = self.st
                    if self.st is None:
                        self.st = State(Heap())
                        nm = ast.unparse(t)
                    else:
                        nm = None
                    self.st = save
                except Exception:
                    nm = None
                nm = ast.unparse(t)
                short = nm.split('.')[-1]
                ename = exc.name.split('.')[-1] if type(exc) is ExcV else 'Exception'
                if exc_isa(ename, short) or exc_isa(exc.name, nm):
                    return h
        return None

    def s_Break(self, s):
        self.fr.loops[-1].breaks.append(self.st)
        raise Dead()

    def s_Continue(self, s):
        self.fr.loops[-1].continues.append(self.st)
        raise Dead()

    # ------------------------------------------------------------------ loops
    def s_For(self, s):
        it = self.ev(s.iter)
        self.for_value(s, it)

    def for_value(self, s, it):
        if type(it) is Phi:
            s0 = self.st
            c = self.st.decide(it.c)
            if c is TRUE:
                return self.for_value(s, it.a)
            if c is FALSE:
                return self.for_value(s, it.b)
            self.st = s0.fork()
            self.st.assume(c)
            try:
                self.for_value(s, it.a)
            except Dead:
                self.st = None
            a = self.st
            self.st = s0.fork()
            self.st.assume(not_(c))
            try:
                self.for_value(s, it.b)
            except Dead:
                self.st = None
            self.join(c, a, self.st)
            return
        seq = self.iter_items(it)
        if type(seq) is list:
            self.unrolled(s, seq)
        elif seq is None:
            self.abstract_for(s, SymSeq(unk('len', self.freeze(it)), lambda i: unk('elem', self.freeze(it), i)))
        else:
            self.abstract_for(s, seq)

    def iter_items(self, it):
        """list of (presence, value) for a known sequence, SymSeq for symbolic"""
        if type(it) is SymSeq:
            d = int_of(it.count)
            if d is not None and d <= ITER:
                return [(TRUE, it.elem(num(k))) for k in range(d)]
            return it
        if type(it) is Ref:
            o = self.obj(it)
            if o.kind == 'dict':
                if o.f.get('__sym__'):
                    return None
                return [(p, self.unkey(k)) for k, p in self.dict_keys(it)]
            if o.kind == 'list' and o.x == 'sym':
                if len(o.f['vals']) == 1 and not o.f['items']:
                    v, L = o.f['vals'][0], o.f['li']
                    return SymSeq(o.f['count'], lambda i: self.subst_val(v, {L: i}))
                return None
            if o.kind in ('arr', 'view'):
                sh, _ = self.arr(it)
                if not sh:
                    self.implicit('TypeError')
                d = int_of(sh[0])
                if d is None or d > UNROLL:
                    return SymSeq(sh[0], lambda i: self.get_item(it, i))
        if type(it) is tuple and len(it) == 2 and it and type(it[0]) is str and it[0] == '__items__':
            return it[1]
        q = self.to_seq(it)
        if q is not None:
            return [(TRUE, x) for x in q]
        if type(it) is Node:
            if it.op == 'none' or it.op == 'n':
                self.implicit('TypeError', string('not iterable'))
        return None

    def unrolled(self, s, seq):
        lc_all = []
        entry_pc = self.st.pc
        for p, x in seq:
            if self.st is None:
                break
            lc = LoopCtx()
            self.fr.loops.append(lc)
            try:
                c = self.st.decide(p)
                if c is FALSE:
                    continue
                base_pc = self.st.pc
                skip = None
                if c is not TRUE:
                    skip = self.st.fork()
                    skip.assume(not_(c))
                    self.st = self.st.fork()
                    self.st.assume(c)
                try:
                    self.assign(s.target, x)
                    self.exec_block(s.body)
                except Dead:
                    self.st = None
                st = self.st
                for cs in reversed(lc.continues):
                    st = cs if st is None else merge_states(conj([q for q in cs.pc if q not in base_pc]), cs, st)
                if skip is not None:
                    st = skip if st is None else merge_states(c, st, skip)
                self.st = st
                lc_all.extend(lc.breaks)
            finally:
                self.fr.loops.pop()
        if self.st is not None and s.orelse:
            self.exec_block(s.orelse)
        st = self.st
        for b in reversed(lc_all):
            st = b if st is None else merge_states(conj([q for q in b.pc if q not in entry_pc]), b, st)
        self.st = st

    def s_While(self, s):
        # concrete unrolling while the test stays decided
        n = 0
        breaks = []
        entry_pc = self.st.pc
        snapshot = None
        const_true = isinstance(s.test, ast.Constant) and bool(s.test.value)
        if not const_true:
            probe = self.probe_const_loop(s)
            if probe:
                return
        self.abstract_loop(s, None)

    def probe_const_loop(self, s):
        """run a while loop whose test is decided at every iteration"""
        s0 = self.st
        ev0, sk0, st0 = len(self.events), len(self.sink), len(self.stores)
        nr0 = len(self.fr.returns)
        nl0 = len(self.loops)
        self.st = s0.fork()
        for k in range(20):
            try:
                c = self.st.decide(self.truth(self.ev(s.test)))
            except Dead:
                break
            if c is FALSE:
                return True
            if c is not TRUE:
                break
            lc = LoopCtx()
            self.fr.loops.append(lc)
            self.exec_block(s.body)
            self.fr.loops.pop()
            if lc.breaks or lc.continues or self.st is None:
                break
        del self.events[ev0:]
        del self.sink[sk0:]
        del self.stores[st0:]
        del self.fr.returns[nr0:]
        del self.loops[nl0:]
        self.st = s0
        return False

    def abstract_for(self, s, seq):
        self.abstract_loop(s, seq)

    def abstract_loop(self, s, seq):
        self.nloop += 1
        L = 'L%d' % self.nloop
        loc = s._loc
        S0 = self.st
        li = raw('li', L)
        if seq is not None:
            self.li_dim[li] = seq.count
        fr = self.fr
        cells = {}
        marks = (len(self.events), len(self.stores), len(fr.returns), len(self.sink), len(self.loops))
        boundary = new_oid()
        nl_save = self.nloop
        for attempt in range(12):
            del self.events[marks[0]:]
            del self.stores[marks[1]:]
            del fr.returns[marks[2]:]
            del self.sink[marks[3]:]
            del self.loops[marks[4]:]
            self.nloop = nl_save
            self.st = S0.fork()
            mus = {}
            for key in sorted(cells, key=repr):
                self.havoc_cell(L, key, cells[key], mus)
            H = self.st.fork()            # header state
            lc = LoopCtx()
            fr.loops.append(lc)
            exits = []
            hdr_c = TRUE
            body_st = None
            try:
                try:
                    if seq is not None:
                        hdr_c = ir.lt(li, seq.count)
                        ex = self.st.fork()
                        exits.append(('header', ex, not_(hdr_c)))
                        self.st = self.st.fork()
                        self.st.assume(hdr_c)
                        self.assign(s.target, seq.elem(li))
                    else:
                        c = self.truth(self.ev(s.test))
                        c = self.st.decide(c)
                        hdr_c = c
                        if c is not TRUE:
                            ex = self.st.fork()
                            ex.assume(not_(c))
                            exits.append(('header', ex, not_(c)))
                        if c is FALSE:
                            raise Dead()
                        self.st = self.st.fork()
                        self.st.assume(c)
                    base_pc = H.pc
                    self.exec_block(s.body)
                except Dead:
                    self.st = None
                st = self.st
                for cs in reversed(lc.continues):
                    st = cs if st is None else merge_states(conj([q for q in cs.pc if q not in base_pc]), cs, st)
                body_st = st
                for q in [body_st] + list(lc.breaks):
                    if q is not None:
                        self.narrow_changed(H, q)
            finally:
                fr.loops.pop()
            new = self.changed_cells(H, body_st, boundary, cells) if body_st is not None else {}
            grew = False
            for k, v in new.items():
                if k not in cells:
                    cells[k] = v
                    grew = True
                elif cells[k] != v and cells[k][0] == 'opt' and v[0] == 'opt':
                    m = ('opt', join_dicts(cells[k][1], v[1]))
                    grew |= m != cells[k]
                    cells[k] = m
                elif cells[k] != v and cells[k][0] != 'unk':
                    cells[k] = ('unk',)
                    grew = True
            if not grew:
                break
        else:
            pass
        self.close_loop(s, L, li, seq, S0, H, hdr_c, body_st, lc.breaks, exits, cells, mus, marks, loc)

    # on the back edge, a gate the path has already decided is the side it picked
    def narrow_changed(self, H, B):
        for oid in list(H.heap.diff(B.heap)):
            b = B.heap.get(oid)
            if H.heap.get(oid) is None or b is None or b.kind in ('arr', 'list', 'dict', 'view'):
                continue
            for k in list(b.f):
                v = b.f[k]
                w = v
                while type(w) is Phi:
                    c = B.decide(w.c)
                    if c is TRUE:
                        w = w.a
                    elif c is FALSE:
                        w = w.b
                    else:
                        break
                if w is not v:
                    b = b.put(k, w)
                    B.heap.set(oid, b)

    # which (object, field) cells differ between header and back edge
    def changed_cells(self, H, B, boundary, cells):
        out = {}
        for oid in H.heap.diff(B.heap):
            a, b = H.heap.get(oid), B.heap.get(oid)
            if a is None:
                continue          # allocated in the loop
            if a.kind == 'arr':
                if a.f['shape'] == b.f['shape']:
                    out[(oid, '__body__')] = ('arr',)
                else:
                    out[(oid, '__obj__')] = ('unk',)
                continue
            if a.kind == 'list':
                out[(oid, '__list__')] = self.list_change(a, b)
                continue
            if a.kind == 'dict':
                for k in set(a.f) | set(b.f):
                    x, y = a.f.get(k, (FALSE, UNDEF)), b.f.get(k, (FALSE, UNDEF))
                    if x[0] is y[0] and same(x[1], y[1]):
                        continue
                    out[(oid, ('key', k))] = self.shape_of(y[1], B, x[1])
                continue
            for k in set(a.f) | set(b.f):
                x, y = a.f.get(k, UNDEF), b.f.get(k, UNDEF)
                if same(x, y):
                    continue
                out[(oid, k)] = self.shape_of(y, B, x)
        return out

    def optional(self, v, init, st):
        """a cell that is None or a dictionary"""
        none, ds, todo = False, [], [v, init]
        while todo:
            x = todo.pop()
            if type(x) is Phi:
                todo += [x.a, x.b]
            elif x is NONE:
                none = True
            elif type(x) is Ref and st.heap.get(x.oid) is not None and st.heap.get(x.oid).kind == 'dict':
                ds.append(x)
            elif x is not UNDEF and x is not None:
                return None
        if not none or not ds:
            return None
        d = self.shape_of(ds[0], st, None, 1)
        for x in ds[1:]:
            d = join_dicts(d, self.shape_of(x, st, None, 1))
        return ('opt', d)

    def list_change(self, a, b):
        if a.x is None and b.x is None:
            ia, ib = a.f['items'], b.f['items']
            if len(ib) >= len(ia) and all(same(x, y) for x, y in zip(ia, ib)):
                return ('append', len(ib) - len(ia))
            if len(ia) == len(ib):
                return ('listelems', len(ia))
        if a.x == 'mu' and b.x == 'mu':
            return ('append', len(b.f['pend']) - 0)
        return ('unk',)

    def shape_of(self, v, st, init, depth=0):
        """descriptor of how to havoc a value"""
        if not depth and (type(v) in (Phi, Ref) or type(init) in (Phi, Ref)):
            opt = self.optional(v, init, st)
            if opt is not None:
                return opt
        if type(v) is Node:
            if type(init) is Node or init is UNDEF or init is None or depth:
                return ('node',)
            return ('node',)
        if type(v) is tuple:
            return ('tuple',) + tuple(self.shape_of(x, st, None, depth + 1) for x in v)
        if type(v) is Ref and depth < 4:
            o = st.heap.get(v.oid)
            if o.kind == 'arr':
                return ('refarr', len(o.f['shape']), o.f['shape'], o.f['dtype'])
            if o.kind == 'view':
                return ('refarr', len(o.f['shape']), o.f['shape'], 'f')
            if o.kind == 'dict':
                return ('refdict', tuple(sorted(((k, p is TRUE, self.shape_of(x, st, None, depth + 1))
                                                 for k, (p, x) in o.f.items()), key=repr)))
            if o.kind == 'list' and o.x is None:
                return ('reflist',) + tuple(self.shape_of(x, st, None, depth + 1) for x in o.f['items'])
            return ('same', v)
        if type(v) is Phi:
            # a gate between something and the value already in the cell
            a = self.shape_of(v.a, st, None, depth)
            b = self.shape_of(v.b, st, None, depth)
            if v.a is UNDEF:
                return b
            if v.b is UNDEF:
                return a
            if a == b:
                return a
            if a[0] == 'same' or b[0] == 'same':
                return ('unk',)
            return a if a[0] != 'node' else b
        if v is UNDEF:
            return ('node',)
        if isinstance(v, (Func, Bound, ClassV, ModV, Ext, SymSeq, BuiltinMethod, WhereIdx)):
            return ('same', v)
        return ('node',)

    def havoc_val(self, L, tag, d, mus, init):
        k = d[0]
        if k == 'node':
            m = raw('mu', L, tag)
            mus.setdefault(m, None)
            return m
        if k == 'unk':
            return unk('loopcell', L, tag)
        if k == 'tuple':
            return tuple(self.havoc_val(L, tag + '.%d' % i, x, mus, None) for i, x in enumerate(d[1:]))
        if k == 'refarr':
            m = raw('mu', L, tag)
            mus.setdefault(m, d[2])
            return self.new_arr(d[2], raw('get', m, *[ir.iv(i) for i in range(d[1])]), d[3])
        if k == 'refdict':
            f = {}
            for kk, pres, sub in d[1]:
                f[kk] = (TRUE if pres else raw('mu', L, tag + '?%s' % (kk,)), self.havoc_val(L, tag + '[%s]' % (kk,), sub, mus, None))
            return self.alloc(Obj('dict', f, None))
        if k == 'reflist':
            return self.new_list([self.havoc_val(L, tag + '.%d' % i, x, mus, None) for i, x in enumerate(d[1:])])
        if k == 'opt':
            m = raw('mu', L, tag + '?opt')
            mus.setdefault(m, None)
            return Phi(m, self.havoc_val(L, tag, d[1], mus, None), NONE)
        if k == 'same':
            return d[1]
        return unk('loopcell', L, tag)

    def havoc_cell(self, L, key, d, mus):
        oid, fld = key
        o = self.st.heap.get(oid)
        if o is None:
            return
        tag = '%d:%s' % (oid, fld if type(fld) is str else fld[1])
        if fld == '__body__':
            m = raw('mu', L, tag)
            mus[m] = o.f['shape']
            b = raw('get', m, *[ir.iv(i) for i in range(len(o.f['shape']))])
            from .arrays import expand
            self.st.heap.set(oid, o.put('body', expand(o.f['shape'], b)))
        elif fld == '__list__':
            if d[0] == 'append':
                self.st.heap.set(oid, Obj('list', {'base': o, 'pend': (), 'L': L, 'items': ()}, 'mu'))
            elif d[0] == 'listelems':
                its = []
                for i, x in enumerate(o.f['items']):
                    its.append(self.havoc_val(L, tag + '.%d' % i, self.shape_of(x, self.st, None), mus, x))
                self.st.heap.set(oid, Obj('list', {'items': tuple(its)}))
            else:
                self.st.heap.set(oid, Obj('list', {'items': (), 'count': unk('len', L), 'li': raw('li', L),
                                                   'vals': (unk('listloop', L),)}, 'sym'))
        elif fld == '__obj__':
            self.st.heap.set(oid, Obj('arr', {'shape': (unk('dim', L),), 'body': unk('loopobj', L), 'dtype': 'f'}))
        elif type(fld) is tuple and fld[0] == 'key':
            k = fld[1]
            p, v = o.f.get(k, (FALSE, UNDEF))
            nv = self.havoc_val(L, tag, d, mus, v)
            np_ = TRUE if p is TRUE else raw('mu', L, tag + '?')
            if p is not TRUE:
                mus.setdefault(np_, None)
            self.st.heap.set(oid, Obj('dict', dict(o.f, **{}) | {k: (np_, nv)}, o.x))
        else:
            v = o.f.get(fld, UNDEF)
            self.st.heap.set(oid, o.put(fld, self.havoc_val(L, tag, d, mus, v)))

    def cell_nodes(self, key, d, st, L, out, tag=None):
        """collect {mu leaf: node value in state st} for a cell"""
        oid, fld = key
        o = st.heap.get(oid)
        tag = '%d:%s' % (oid, fld if type(fld) is str else fld[1])
        if o is None:
            return
        if fld == '__body__':
            out[raw('mu', L, tag)] = ('arr', o.f['shape'], o.f['body'])
        elif fld == '__list__':
            if d[0] == 'listelems' and o.x is None:
                for i, x in enumerate(o.f['items']):
                    self.val_nodes(L, tag + '.%d' % i, self.shape_of(x, st, None), x, st, out)
        elif type(fld) is tuple and fld[0] == 'key':
            p, v = o.f.get(fld[1], (FALSE, UNDEF))
            out[raw('mu', L, tag + '?')] = ('node', p)
            self.val_nodes(L, tag, d, v, st, out)
        elif fld != '__obj__':
            self.val_nodes(L, tag, d, o.f.get(fld, UNDEF), st, out)

    def val_nodes(self, L, tag, d, v, st, out):
        k = d[0]
        if type(v) is Phi:
            oa, ob = {}, {}
            self.val_nodes(L, tag, d, v.a, st, oa)
            self.val_nodes(L, tag, d, v.b, st, ob)
            for m in set(oa) | set(ob):
                a, b = oa.get(m), ob.get(m)
                if a is None or b is None:
                    out[m] = a or b
                elif a[0] == 'node' and b[0] == 'node':
                    out[m] = ('node', ite(v.c, a[1], b[1]))
                elif a[0] == 'arr' and b[0] == 'arr' and a[1] == b[1]:
                    out[m] = ('arr', a[1], ir.lift(ite, v.c, a[2], b[2]))
                else:
                    out[m] = ('node', unk('phi', L))
            return
        if k == 'opt':
            out[raw('mu', L, tag + '?opt')] = ('node', TRUE if type(v) is Ref else FALSE)
            if type(v) is Ref:
                self.val_nodes(L, tag, d[1], v, st, out)
            return
        if v is UNDEF:
            if k == 'node':
                out[raw('mu', L, tag)] = ('node', raw('undef'))
            return
        if k == 'node':
            out[raw('mu', L, tag)] = ('node', v if type(v) is Node else unk('objcell', L))
        elif k == 'tuple' and type(v) is tuple:
            for i, (x, dd) in enumerate(zip(v, d[1:])):
                self.val_nodes(L, tag + '.%d' % i, dd, x, st, out)
        elif k == 'refarr':
            save = self.st
            self.st = st
            try:
                sh, b = self.arr(v)
                out[raw('mu', L, tag)] = ('arr', sh, b)
            except NotArr:
                out[raw('mu', L, tag)] = ('node', unk('notarr', L))
            self.st = save
        elif k == 'refdict' and type(v) is Ref:
            o = st.heap.get(v.oid)
            if o.kind == 'dict':
                for kk, pres, sub in d[1]:
                    p, x = o.f.get(kk, (FALSE, UNDEF))
                    if not pres:
                        out[raw('mu', L, tag + '?%s' % (kk,))] = ('node', p)
                    self.val_nodes(L, tag + '[%s]' % (kk,), sub, x, st, out)
        elif k == 'reflist' and type(v) is Ref:
            o = st.heap.get(v.oid)
            if o.kind == 'list' and o.x is None:
                for i, (x, dd) in enumerate(zip(o.f['items'], d[1:])):
                    self.val_nodes(L, tag + '.%d' % i, dd, x, st, out)

    def close_loop(self, s, L, li, seq, S0, H, hdr_c, B, breaks, exits, cells, mus, marks, loc):
        nexts, inits = {}, {}
        for key, d in cells.items():
            self.cell_nodes(key, d, S0, L, inits)
            if B is not None:
                self.cell_nodes(key, d, B, L, nexts)
        all_exits = [(st, c) for _, st, c in exits]
        base_pc = set(H.pc)
        for b in breaks:
            all_exits.append((b, conj([q for q in b.pc if q not in base_pc])))
        # counted while loops: a counter cell with +1 step and an upper bound
        count = seq.count if seq is not None else None
        leaving = [c for _, c in all_exits]
        rets = self.fr.returns[marks[2]:]
        raises = self.sink[marks[3]:]
        for v, st in rets:
            leaving.append(conj([q for q in st.pc if q not in base_pc]))
        rec = LoopRec(L=L, li=li, seq=seq, loc=loc, cells=cells, inits=inits, nexts=nexts, hdr=hdr_c,
                      exits=[(st, c) for st, c in all_exits], rets=[(v, st) for v, st in rets],
                      raises=[(v, st) for v, st in raises], base_pc=base_pc, back=B, func=self.fr.name,
                      node=s, stack=tuple(self.callstack), S0=S0, H=H,
                      leaving=list(leaving), raising=[conj([q for q in st.pc if q not in base_pc]) for e, st in raises
                                                      if not (type(e) is ExcV and e.implicit)])
        self.loops.append(rec)
        pure_for = seq is not None and not breaks and not rets
        if seq is None and not breaks and not rets and B is not None:
            # while i < n with i = i + 1
            for m, nx in nexts.items():
                if nx[0] == 'node' and nx[1] is ir.add(m, ONE) and m in inits and inits[m][0] == 'node':
                    if hdr_c.op == 'lt' and hdr_c.args[0] is m and not mu_leaves(hdr_c.args[1], L):
                        count = ir.sub(hdr_c.args[1], inits[m][1])
                        pure_for = True
                        idx = ir.add(li, inits[m][1])
                        self.li_dim[li] = count
                        mp = {m: idx}
                        nexts = {k: self.sub_entry(v, mp) for k, v in nexts.items() if k is not m}
                        nexts[m] = ('node', ir.add(idx, ONE))
                        closed0 = {m: hdr_c.args[1]}
                        break
            else:
                closed0 = {}
        else:
            closed0 = {}
        sub = {}
        sub.update(closed0)
        arrsub = {}
        if pure_for:
            # counters: their value in iteration li is known
            mp = {}
            for m, nx in nexts.items():
                if m in sub or nx[0] != 'node' or nx[1] is m or inits.get(m, ('',))[0] != 'node':
                    continue
                e = addend(nx[1], m)
                if e is not None and e.op != 'ite' and li not in e.leaves and not mu_leaves(e, L) and inits[m][1].op != 'undef':
                    mp[m] = ir.add(inits[m][1], ir.mul(e, li))
            if mp:
                nexts = {k: v if k in mp else self.sub_entry(v, mp) for k, v in nexts.items()}
            # nodes invariant in the loop / reductions / parallel stores
            for m, nx in nexts.items():
                if m in sub:
                    continue
                ini = inits.get(m)
                r = self.close_simple(m, nx, ini, li, L, count)
                if r is not None:
                    if r[0] == 'node':
                        sub[m] = r[1]
                    else:
                        arrsub[m] = r
        # anything left becomes a loop value
        rest = [m for m in nexts if m not in sub and m not in arrsub]
        memo = {}
        entries = {}

        def exit_node(m):
            """expression of cell m's own leaf at exit is m itself"""
            return m
        cond_exit = FALSE
        for c in leaving:
            cond_exit = or_(cond_exit, c)
        if B is None and not nexts:
            cond_exit = TRUE
        need_generic = bool(rest)
        system = None
        if need_generic or (not pure_for):
            system = self.loop_system(L, li, inits, nexts, cond_exit, count)
        self.loop_close = (sub, arrsub, system)

        def closer(n, st_tag=None):
            return self.close_node(n, L, li, sub, arrsub, system, count, memo)

        # rewrite every exit state
        oids = set(o for o, _ in cells)

        def fix_state(st):
            h = Heap(st.heap.root)
            touched = set(H.heap.diff(st.heap)) | set(S0.heap.diff(H.heap)) | oids
            for oid in touched:
                o = st.heap.get(oid)
                if o is None:
                    continue
                if o.kind == 'env':
                    o = settled(o, st)
                o2 = self.map_obj(o, closer, L, li, count, oid, H, S0, B, cells)
                if o2 is not o:
                    h.set(oid, o2)
            pc = tuple(p2 for p2 in (closer(p) for p in st.pc) if p2.op != 'b')
            return State(h, pc)

        # environment objects may refer to mu nodes created in H
        fixed = []
        for st, c in all_exits:
            fixed.append((fix_state(st), closer(c) if True else c, c))
        for k in range(marks[2], len(self.fr.returns)):
            v, st = self.fr.returns[k]
            self.fr.returns[k] = (self.map_val(v, closer), fix_state(st))
        for k in range(marks[3], len(self.sink)):
            e, st = self.sink[k]
            self.sink[k] = (e, fix_state(st))
        for k in range(marks[0], len(self.events)):
            self.events[k] = self.map_event(self.events[k], closer)
        if not fixed:
            self.st = None
            return
        st, c, _ = fixed[-1]
        out = st
        for st2, c2, _ in reversed(fixed[:-1]):
            if c2.op == 'b':
                out = st2 if c2.args[0] else out
            else:
                out = merge_states(c2, st2, out)
        # facts about the loop's last iteration are not facts about the program point
        self.st = State(out.heap, tuple(p for p in out.pc if p in base_pc or (
            len(fixed) == 1 and not (p.leaves and li in p.leaves))))
        if seq is not None and s.orelse and self.st is not None:
            self.exec_block(s.orelse)

    def sub_entry(self, e, mp):
        return (e[0],) + tuple(ir.subst(x, mp) if type(x) is Node else x for x in e[1:])

    def map_event(self, ev, closer):
        return tuple(closer(x) if type(x) is Node else x for x in ev)

    def close_simple(self, m, nx, ini, li, L, count):
        """closed form of a cell of a counted loop, or None"""
        if ini is None:
            return None
        if nx[0] == 'node' and ini[0] == 'node':
            v, i0 = nx[1], ini[1]
            if v is m:
                return ('node', i0)
            # m + e  (possibly under a gate)
            e = addend(v, m)
            if e is not None and li not in e.leaves and not mu_leaves(e, L) and (
                    (int_of(count) if int_of(count) is not None else -1) >= 0 or count.op == 'atom' and str(count.args[0]).startswith('int:')):
                return ('node', ir.add(i0, ir.mul(count, e)))
            if e is not None and not mu_leaves(e, L):
                from .arrays import mk_sum
                return ('node', ir.add(i0, mk_sum(li, count, e)) if i0 is not ZERO else mk_sum(li, count, e))
            if not mu_leaves(v, L):
                # last value written
                last = ir.subst(v, {li: ir.sub(count, ONE)})
                k = int_of(count)
                if i0.op == 'undef':
                    return ('node', last)
                return ('node', ite(ir.lt(ZERO, count), last, i0))
            return None
        if nx[0] == 'arr' and ini[0] == 'arr':
            sh, b = nx[1], nx[2]
            r = self.close_par(m, sh, b, ini[2], li, L, count)
            if r is None:
                r = self.close_stride(m, sh, b, ini[2], li, L, count)
            if r is not None:
                return ('arr', sh, r)
        return None

    def close_stride(self, m, sh, x, init, li, L, count):
        """array of which iteration li only writes the block [S*li + c,
        S*li + c + S) along one axis: iterations do not interfere"""
        own = raw('get', m, *[ir.iv(i) for i in range(len(sh))])
        for k in range(len(sh)):
            blk = self.blocks(x, own, m, k, li)
            if not blk:
                continue
            S = None
            base, top = None, None
            ok = True
            for lo, hi in blk:
                a, z = linear(lo), linear(hi)
                sa, sz = a.pop(li, 0), z.pop(li, 0)
                if any(li in q.leaves or mu_leaves(q, L) for q in list(a) + list(z) if q is not None) or sa != sz or sa <= 0 \
                        or sa.denominator != 1 or (S is not None and sa != S):
                    ok = False
                    break
                S = sa
                if base is None:
                    base, top = a, z
                    continue
                for cur, new, pick in ((base, a, min), (top, z, max)):
                    d = dict(new)
                    for q, v in cur.items():
                        d[q] = d.get(q, 0) - v
                    d = {q: v for q, v in d.items() if v}
                    if set(d) - {None}:
                        ok = False
                    elif pick(d.get(None, 0), 0) == d.get(None, 0):
                        cur.clear()
                        cur.update(new)
            if not ok:
                continue
            w = {q: top.get(q, 0) - base.get(q, 0) for q in set(top) | set(base)}
            w = {q: v for q, v in w.items() if v}
            if set(w) - {None} or not 0 < w.get(None, 0) <= S:
                continue
            c = num(base.get(None, 0))
            for q in sorted((q for q in base if q is not None), key=lambda q: q.id):
                c = ir.add(c, ir.mul(num(base[q]), q))
            if c.op == 'n' and c.args[0].denominator != 1:
                continue
            # reads of the array itself in this iteration
            sub, bad = {}, False
            for q in ir.walk(x):
                if m not in q.leaves:
                    continue
                if q.op == 'get' and q.args[0] is m:
                    e = q.args[1 + k]
                    if any(m in y.leaves for y in q.args[1:]):
                        bad = True
                        break
                    if e is not ir.iv(k):
                        d = linear(ir.sub(e, ir.add(ir.mul(num(S), li), c)))
                        if set(d) - {None} or not 0 <= d.get(None, 0) < S:
                            bad = True
                            break
                    sub[q] = ir.subst(init, {ir.iv(i): y for i, y in enumerate(q.args[1:])})
            if bad:
                continue
            r = ir.replace_nodes(x, sub)
            if mu_leaves(r, L):
                continue
            rel = ir.sub(ir.iv(k), c)
            it = rel if S == 1 else floordiv(rel, num(S))
            r = ir.subst(r, {li: it})
            inside = and_(ir.le(c, ir.iv(k)), ir.lt(rel, ir.mul(num(S), count)))
            return ite(inside, r, init)
        return None

    def blocks(self, x, own, m, k, li):
        """intervals [lo, hi) of axis k outside of which x is the array's own
        value; None if there is no such bound"""
        out = []
        key = ir.iv(k)
        pos0 = {}

        def own_at(pos):
            return raw('get', m, *[pos.get(a, a) for a in own.args[1:]])

        def bound(lo, hi, c):
            if c.op == 'and':
                for q in c.args:
                    lo, hi = bound(lo, hi, q)
            elif c.op == 'eq':
                for a, o in ((c.args[0], c.args[1]), (c.args[1], c.args[0])):
                    d = linear(ir.sub(a, o))
                    f = d.get(key)
                    if f in (1, -1) and a is c.args[0]:
                        e = self.solve_for(d, key)
                        if e is not None:
                            lo, hi = e, ir.add(e, ONE)
            elif c.op in ('lt', 'le') or (c.op == 'not' and c.args[0].op in ('lt', 'le')):
                op, (a, b) = c.op, c.args if c.op != 'not' else c.args[0].args
                if op == 'not':
                    op = 'le' if c.args[0].op == 'lt' else 'lt'
                    a, b = b, a
                d = linear(ir.sub(b, a))          # 0 < d or 0 <= d
                f = d.get(key)
                if f in (1, -1):
                    e = self.solve_for(d, key)
                    if e is not None:
                        if f == 1:
                            if lo is None:
                                lo = ir.add(e, ONE) if op == 'lt' else e
                        elif hi is None:
                            hi = e if op == 'lt' else ir.add(e, ONE)
            return lo, hi

        def go(x, pos, lo, hi):
            if x is own_at(pos) or x is own:
                return True
            if x.op == 'pick' and x.args[0].op == 'iv' and x.args[0] is not key:
                return all(go(y, _with(pos, x.args[0], num(c)), lo, hi)
                           for c, y in enumerate(x.args[1:]))
            if x.op == 'ite':
                l1, h1 = bound(lo, hi, x.args[0])
                l2, h2 = bound(lo, hi, ir.not_(x.args[0]))
                return go(x.args[1], pos, l1, h1) and go(x.args[2], pos, l2, h2)
            if lo is None or hi is None:
                return False
            if key in lo.leaves or key in hi.leaves:
                return False
            out.append((lo, hi))
            return True

        def _with(pos, a, v):
            p = dict(pos)
            p[a] = v
            return p
        if not go(x, pos0, None, None):
            return None
        return out

    def solve_for(self, d, key):
        """the value of key at which the integer-linear form d is zero"""
        f = d[key]
        r = ZERO
        for q, v in d.items():
            if q is key:
                continue
            if q is not None and key in q.leaves:
                return None
            r = ir.add(r, num(-v/f) if q is None else ir.mul(num(-v/f), q))
        return r

    def close_par(self, m, sh, b, init, li, L, count):
        """body of an array written independently at each iteration"""
        own = raw('get', m, *[ir.iv(i) for i in range(len(sh))])

        def conv(x):
            """x: node over iv's, li, own -> value after all iterations"""
            if not mu_leaves(x, L) and li not in x.leaves:
                return None
            if x is own:
                return own
            if x.op == 'get' and x.args[0] is m:
                return x
            return x

        def fin(x, pos):
            # pos: per axis substitution for constant picks
            if x.op == 'pick' and x.args[0].op == 'iv':
                k = x.args[0].args[0]
                alts = []
                for c in range(len(x.args) - 1):
                    r = fin(x.args[c + 1], dict(pos, **{str(k): num(c)}))
                    if r is None:
                        return None
                    alts.append(r)
                return ir.pick(x.args[0], *alts)
            ownp = raw('get', m, *[pos.get(str(i), ir.iv(i)) for i in range(len(sh))])
            initp = ir.subst(init, {ir.iv(int(k)): v for k, v in pos.items()})
            if x is ownp:
                return initp
            if x.op == 'ite' or x.op == 'pcs':
                pass
            # collect gate of the form eq(iv_k, li (+const)) anywhere at the top of an ite tree
            ax = None
            for q in ir.walk(x):
                if q.op == 'eq' and li in q.leaves:
                    for a, o in ((q.args[0], q.args[1]), (q.args[1], q.args[0])):
                        if a.op == 'iv' and li in o.leaves:
                            lf = linear(o)
                            if lf.get(li) == 1:
                                off = ir.sub(o, li)
                                if li not in off.leaves and not mu_leaves(off, L):
                                    ax = (a, off, q)
            if ax is None:
                # every iteration overwrites / accumulates the whole element
                e = addend(x, ownp)
                if e is not None and not mu_leaves(e, L):
                    from .arrays import mk_sum
                    return ir.add(initp, mk_sum(li, count, e))
                if not mu_leaves(x, L):
                    return ite(ir.lt(ZERO, count), ir.subst(x, {li: ir.sub(count, ONE)}), initp)
                return None
            a, off, q = ax
            hit = ir.replace_nodes(x, {q: TRUE})
            miss = ir.replace_nodes(x, {q: FALSE})
            if miss is not ownp:
                return None
            # in the hit branch the index is a - off
            idx = ir.sub(a, off)
            hit = ir.subst(hit, {li: idx})
            bad = [lf for lf in hit.leaves if lf.op == 'mu' and lf.args[0] == L]
            if bad:
                # reads of the own element before the write see the initial value
                hit2 = ir.replace_nodes(hit, {ownp: initp})
                if mu_leaves(hit2, L):
                    return None
                hit = hit2
            cnd = and_(ir.le(off, a), ir.lt(idx, count))
            d = sh[a.args[0]]
            from .arrays import lin_same
            if off is ZERO and (lin_same(d, count) or d.op == 'cnt'):
                cnd = TRUE
            return ite(cnd, hit, initp)
        return fin(b, {})

    def loop_system(self, L, li, inits, nexts, cond_exit, count):
        """the loop as a recurrence; used to build loopval nodes"""
        return (inits, nexts, cond_exit, count)

    def close_node(self, n, L, li, sub, arrsub, system, count, memo):
        if not n.leaves:
            return n
        if n in memo:
            return memo[n]
        mine = mu_leaves(n, L)
        if not mine and li not in n.leaves:
            return n
        if mine and all(m in sub for m in mine) and li not in n.leaves:
            r = ir.subst(n, {m: sub[m] for m in mine})
        elif mine and all(m in sub or m in arrsub for m in mine):
            r = self.sub_arrays(n, {m: arrsub[m] for m in mine if m in arrsub})
            r = ir.subst(r, {m: sub[m] for m in mine if m in sub})
        elif mine and system is None:
            r = unk('loop', L)
        elif not mine and system is None:
            # depends on the loop index only (last iteration)
            r = ir.subst(n, {li: ir.sub(count, ONE)}) if count is not None else unk('loopindex', L)
        else:
            r = self.loopval(n, L, li, system)
        memo[n] = r
        return r

    def sub_arrays(self, n, arrs, memo=None):
        """replace get(mu, idx...) by the closed body"""
        if memo is None:
            memo = {}

        def go(x):
            if x in memo:
                return memo[x]
            if not x.leaves or x.leaves.isdisjoint(arrs):
                return x
            if x.op == 'get' and x.args[0] in arrs:
                _, sh, body = arrs[x.args[0]]
                idx = [go(a) for a in x.args[1:]]
                tmp = {ir.iv(i): raw('tv', 'sa%d' % i) for i in range(len(idx))}
                r = ir.subst(body, tmp)
                r = ir.subst(r, {raw('tv', 'sa%d' % i): idx[i] for i in range(len(idx))})
            elif x in arrs:
                _, sh, body = arrs[x]
                from .arrays import close_arr
                r = close_arr(sh, body)
            else:
                args = tuple(go(a) if type(a) is Node else a for a in x.args)
                if x.op in ir.BINDERS:
                    r = ir.fix_binder(raw(x.op, *args), x.args[0])
                else:
                    r = ir.rebuild(x.op, args)
            memo[x] = r
            return r
        return go(n)

    def loopval(self, n, L, li, system):
        """value of expression n when the loop is left"""
        inits, nexts, cond, count = system
        # backward slice of cells
        need, work = [], [n, cond]
        seen = set()
        while work:
            x = work.pop()
            for lf in mu_order(x, L):
                if lf not in seen:
                    seen.add(lf)
                    need.append(lf)
                    nx = nexts.get(lf) or inits.get(lf)
                    if nx is not None:
                        work.append(nx[-1])
        vars_ = list(need) + [li]
        parts = []
        for m in need:
            ini = inits.get(m, ('node', raw('undef')))
            nx = nexts.get(m, ('node', m))
            if nx[0] == 'arr':
                sh = nx[1]
                from .arrays import close_arr
                ib = ini[2] if ini[0] == 'arr' else (ini[1] if type(ini[1]) is Node else unk('init'))
                parts += [close_arr(sh, ib), close_arr(sh, nx[2])]
            else:
                ib = ini[1] if ini[0] == 'node' else close_any(ini)
                parts += [ib, nx[1]]
        # index leaves of the surrounding array body are free in n only
        body = raw('lsys', n, cond, *parts)
        r = ir.bind('loopval', vars_, body)
        return r

    # rewriting of objects and values through a node map
    def map_val(self, v, f):
        if type(v) is Node:
            return f(v)
        if type(v) is tuple:
            return tuple(self.map_val(x, f) for x in v)
        if type(v) is Phi:
            return merge_val(f(v.c), self.map_val(v.a, f), self.map_val(v.b, f))
        if type(v) is SliceV:
            return SliceV(self.map_val(v.a, f), self.map_val(v.b, f), self.map_val(v.c, f))
        if type(v) is SymSeq:
            return SymSeq(f(v.count), lambda i, e=v.elem: self.map_val(e(i), f))
        return v

    def subst_val(self, v, m):
        def f(n):
            return ir.subst(n, m)
        if type(v) is Ref:
            o = self.obj(v)
            if o.kind in ('arr', 'dict', 'list', 'view'):
                if o.kind == 'view':
                    sh, b = self.arr(v)
                    return self.new_arr(sh, ir.subst(b, m))
                return self.alloc(self.map_obj0(o, f))
            return v
        return self.map_val(v, f)

    def map_obj0(self, o, f):
        if o.kind == 'arr':
            return Obj('arr', {'shape': tuple(f(d) for d in o.f['shape']), 'body': f(o.f['body']), 'dtype': o.f['dtype']}, o.x)
        if o.kind == 'dict':
            ch = False
            g = {}
            for k, pv in o.f.items():
                p, v = pv
                p2, v2 = f(p), self.map_val(v, f)
                if p2 is not p or v2 is not v:
                    ch = True
                g[k] = (p2, v2)
            return Obj('dict', g, o.x) if ch else o
        if o.kind == 'list':
            if 'items' in o.f and o.x is None:
                return Obj('list', {'items': tuple(self.map_val(x, f) for x in o.f['items'])}, None)
            if o.x == 'sym':
                return Obj('list', dict(o.f, count=f(o.f['count']), vals=tuple(self.map_val(x, f) for x in o.f['vals'])), 'sym')
            return o
        if o.kind == 'view':
            sp = tuple(tuple(f(x) if type(x) is Node else x for x in q) for q in o.f['specs'])
            return Obj('view', {'base': o.f['base'], 'specs': sp, 'shape': tuple(f(d) for d in o.f['shape'])}, o.x)
        if o.kind in ('env', 'inst', 'module', 'class', 'file', 'fs', 'ext'):
            g = {}
            ch = False
            for k, v in o.f.items():
                v2 = self.map_val(v, f)
                ch = ch or v2 is not v
                g[k] = v2
            return Obj(o.kind, g, o.x) if ch else o
        return o

    def map_obj(self, o, f, L, li, count, oid, H, S0, B, cells):
        if o.kind == 'list' and o.x == 'mu' and o.f.get('L') == L:
            base = o.f['base']
            pend_b = B.heap.get(oid).f['pend'] if B is not None and B.heap.get(oid).kind == 'list' else ()
            if count is not None and base.x is None and len(pend_b) == 1 and not o.f['pend']:
                v = pend_b[0]
                # appended values must not depend on loop-carried cells
                ok = self.val_free(v, L, B)
                if not base.f['items'] and ok:
                    v2 = self.import_val(v, B)
                    return Obj('list', {'items': (), 'count': count, 'li': li, 'vals': (v2,)}, 'sym')
            if not pend_b and not o.f['pend']:
                return base
            cn = f(raw('mu', L, '%d:len' % oid)) if False else unk('listlen', L)
            vals = []
            if base.x is None:
                for x in base.f['items']:
                    vals.append(x)
            it = unk('listloop', L, *[x for x in [self.freeze_in(p, B) for p in pend_b]])
            return Obj('list', {'items': (), 'count': cn, 'li': li, 'vals': (it,)}, 'sym')
        return self.map_obj0(o, f)

    def val_free(self, v, L, st):
        n = self.freeze_in(v, st)
        return not mu_leaves(n, L)

    def freeze_in(self, v, st):
        save = self.st
        self.st = st
        try:
            return self.freeze(v)
        finally:
            self.st = save

    def import_val(self, v, st):
        if type(v) is Ref and self.st is not None:
            o = st.heap.get(v.oid)
            return v
        return v

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.unk_sites[ir.LOC[0]] = type(e).__name__
            return unk('expr:' + type(e).__name__, fresh_id())
        old = ir.LOC[0]
        ir.LOC[0] = e._loc
        try:
            return m(e)
        finally:
            ir.LOC[0] = old

    def e_Constant(self, e):
        v = e.value
        if v is Ellipsis:
            return ELLIPSIS
        return ir.const(v)

    def e_Name(self, e):
        return self.load_name(e.id)

    def load_name(self, name):
        fr = self.fr
        oid = fr.env
        if name in fr.globals:
            oid = fr.mod.oid
        first = True
        while oid is not None:
            o = self.st.heap.get(oid)
            v = o.f.get(name)
            if v is not None:
                if v is UNDEF:
                    self.implicit('UnboundLocalError', string(name))
                if type(v) is Phi:
                    v = self.strip_undef(v, name)
                elif type(v) is Node and v.op in ('undef',):
                    self.implicit('UnboundLocalError', string(name))
                return v
            if first and name in fr.locals:
                self.implicit('UnboundLocalError', string(name))
            first = False
            oid = o.x if o.kind == 'env' else (o.x if o.kind == 'class' and type(o.x) is int else None)
            if oid is None and o.kind != 'module':
                oid = fr.mod.oid
        if name in ('True', 'False', 'None'):
            return {'True': TRUE, 'False': FALSE, 'None': NONE}[name]
        if name in BUILTINS or name in EXC_BASES or name == 'BaseException':
            return Ext('builtins.' + name)
        if name == '__name__':
            return string(fr.mod.name)
        if name == '__file__':
            return string(getattr(fr.mod, 'path', '?'))
        self.implicit('NameError', string(name))

    def strip_undef(self, v, name):
        if type(v) is Phi:
            a, b = v.a, v.b
            if a is UNDEF:
                self.maybe_throw(v.c, 'UnboundLocalError', string(name))
                return self.strip_undef(b, name)
            if b is UNDEF:
                self.maybe_throw(not_(v.c), 'UnboundLocalError', string(name))
                return self.strip_undef(a, name)
            c = self.st.decide(v.c)
            if c is TRUE:
                return self.strip_undef(a, name)
            if c is FALSE:
                return self.strip_undef(b, name)
            return v
        return v

    def bind_name(self, name, v):
        fr = self.fr
        if name in fr.globals:
            self.setf(fr.mod.oid, name, v)
            return
        if name in getattr(fr, 'nonlocals', ()):
            oid = self.st.heap.get(fr.env).x
            while oid is not None:
                o = self.st.heap.get(oid)
                if name in o.f:
                    self.setf(oid, name, v)
                    return
                oid = o.x if o.kind == 'env' else None
        if getattr(fr, 'compr', False):
            pass
        self.setf(fr.env, name, v)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_Tuple(self, e):
        return tuple(self.ev_elts(e.elts))

    def e_List(self, e):
        return self.new_list(self.ev_elts(e.elts))

    def e_Set(self, e):
        return self.new_list(self.ev_elts(e.elts))

    def ev_elts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                q = self.to_seq(v)
                if q is None:
                    out.append(unk('star', self.freeze(v)))
                else:
                    out.extend(q)
            else:
                out.append(self.ev(x))
        return out

    def new_list(self, items):
        return self.alloc(Obj('list', {'items': tuple(items)}))

    def new_dict(self, f=None, label=None):
        return self.alloc(Obj('dict', f or {}, label))

    def e_Dict(self, e):
        r = self.new_dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(r, self.ev(v))
            else:
                kk = self.ev(k)
                self.set_item(r, kk, self.ev(v))
        return r

    def e_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        return self.branch(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def go(vals):
            v = self.ev(vals[0])
            if len(vals) == 1:
                return v
            c = self.truth(v)
            if isand:
                return self.branch(c, lambda: go(vals[1:]), lambda: self.falsy(v, c))
            return self.branch(c, lambda: v, lambda: go(vals[1:]))
        return go(e.values)

    def falsy(self, v, c):
        return v

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return not_(self.truth(v))
        if isinstance(e.op, ast.USub):
            return self.num_op(ir.neg, v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return self.ewise_phi(lambda a: not_(a), v, dtype='b')
        return unk('unary')

    def num_op(self, fn, *vals, **kw):
        return self.ewise_phi(fn, *vals, **kw)

    def ewise_phi(self, fn, *vals, **kw):
        for i, v in enumerate(vals):
            if type(v) is Phi:
                va = list(vals)

                def fa():
                    va[i] = v.a
                    return self.ewise_phi(fn, *va, **kw)

                def fb():
                    vb = list(vals)
                    vb[i] = v.b
                    return self.ewise_phi(fn, *vb, **kw)
                return self.branch(v.c, fa, fb)
            if type(v) is Node:
                self.need_num(v)
        try:
            return self.ewise(fn, *vals, **kw)
        except NotArr:
            return unk('ewise', *[self.freeze(v) for v in vals])

    def need_num(self, v):
        if v.op == 'none':
            self.implicit('TypeError', string('None operand'))
        if v.op == 'ite' and (v.args[1].op == 'none' or v.args[2].op == 'none'):
            c = v.args[0] if v.args[1].op == 'none' else not_(v.args[0])
            self.maybe_throw(c, 'TypeError', string('None operand'))

    OPS = {'Add': ir.add, 'Sub': ir.sub, 'Mult': ir.mul, 'Div': ir.div, 'Pow': ir.power}

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        if type(a) is Phi:
            return self.branch(a.c, lambda: self.binop(op, a.a, b), lambda: self.binop(op, a.b, b))
        if type(b) is Phi:
            return self.branch(b.c, lambda: self.binop(op, a, b.a), lambda: self.binop(op, a, b.b))
        la, lb = self.is_list(a), self.is_list(b)
        if op == 'Add':
            if type(a) is tuple and type(b) is tuple:
                return a + b
            if la and lb:
                qa, qb = self.to_seq(a), self.to_seq(b)
                if qa is not None and qb is not None:
                    return self.new_list(qa + qb)
                return unk('listadd', self.freeze(a), self.freeze(b))
        if op == 'Mult':
            for x, y in ((a, b), (b, a)):
                if type(x) is tuple and type(y) is Node and int_of(y) is not None:
                    return x * int_of(y)
                if self.is_list(x) and type(y) is Node and not self.is_arr(y):
                    q = self.to_seq(x)
                    if q is not None and int_of(y) is not None:
                        return self.new_list(q * int_of(y))
                    if q is not None and len(q) == 1 and type(q[0]) is Node:
                        return self.alloc(Obj('list', {'items': (), 'count': y, 'li': raw('li', 'rep%d' % fresh_id()), 'vals': (q[0],)}, 'sym'))
        if op == 'Mod' and type(a) is Node and ir.kind_of(a) == 'str':
            return self.str_fmt('%', a, [b])
        if type(a) is Ref and self.obj(a).kind == 'inst' or type(b) is Ref and self.obj(b).kind == 'inst':
            nm = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'Pow': 'pow', 'MatMult': 'matmul', 'Mod': 'mod', 'FloorDiv': 'floordiv'}.get(op)
            if type(a) is Ref and self.obj(a).kind == 'inst':
                m = self.find_method(a, '__%s__' % nm)
                if m is not None:
                    return self.call(m, [b], {})
            if type(b) is Ref and self.obj(b).kind == 'inst':
                m = self.find_method(b, '__r%s__' % nm)
                if m is not None:
                    return self.call(m, [a], {})
        if op in self.OPS:
            if op == 'Div' and type(b) is Node and type(a) is Node:
                if b.op == 'n' and b.args[0] == 0:
                    self.implicit('ZeroDivisionError')
            return self.ewise_phi(self.OPS[op], a, b)
        if op == 'FloorDiv':
            return self.ewise_phi(floordiv, a, b)
        if op == 'Mod':
            return self.ewise_phi(mod, a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            f = {'BitAnd': and_, 'BitOr': or_, 'BitXor': lambda x, y: not_(ir.eq(x, y))}[op]
            if op == 'BitOr' and type(a) is Ref and self.obj(a).kind == 'dict':
                r = self.dict_copy(a)
                self.dict_update(r, b)
                return r
            return self.ewise_phi(lambda x, y: f(truth(x), truth(y)), a, b, dtype='b')
        if op == 'MatMult':
            return self.np_call('numpy.matmul', [a, b], {})
        return unk('binop:' + op, self.freeze(a), self.freeze(b))

    def is_list(self, v):
        return type(v) is Ref and self.obj(v).kind == 'list'

    def e_Compare(self, e):
        left = self.ev(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            c = self.compare(type(op).__name__, left, right)
            if res is None:
                res = c
            elif type(res) is Node and type(c) is Node:
                res = and_(truth(res), truth(c))
            else:
                res = self.ewise_phi(lambda x, y: and_(truth(x), truth(y)), res, c, dtype='b')
            left = right
        return res

    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            r = self.is_same(a, b)
            return r if op == 'Is' else not_(r)
        if op in ('In', 'NotIn'):
            r = self.phi(b, lambda bb: self.contains(a, bb))
            return r if op == 'In' else not_(self.truth(r))
        if type(a) is Phi:
            return self.branch(a.c, lambda: self.compare(op, a.a, b), lambda: self.compare(op, a.b, b))
        if type(b) is Phi:
            return self.branch(b.c, lambda: self.compare(op, a, b.a), lambda: self.compare(op, a, b.b))
        if op in ('Eq', 'NotEq'):
            r = self.equal(a, b)
            if op == 'NotEq':
                if type(r) is Node:
                    return not_(r)
                return self.ewise_phi(not_, r, dtype='b')
            return r
        f = {'Lt': ir.lt, 'Gt': lambda x, y: ir.lt(y, x), 'LtE': ir.le, 'GtE': lambda x, y: ir.le(y, x)}[op]
        if type(a) is tuple and type(b) is tuple:
            return unk('tuplecmp', self.freeze(a), self.freeze(b))
        return self.ewise_phi(f, a, b, dtype='b')

    def equal(self, a, b):
        if type(a) is Node and type(b) is Node:
            return ir.eq(a, b)
        if self.is_arr(a) or self.is_arr(b):
            if type(a) is Node and a.op in ('none', 's') or type(b) is Node and b.op in ('none', 's'):
                o = self.obj(a if type(a) is Ref else b)
                if (a if type(a) is Node else b).op == 'none':
                    return FALSE
            return self.ewise_phi(ir.eq, a, b, dtype='b')
        if type(a) is tuple and type(b) is tuple:
            if len(a) != len(b):
                return FALSE
            r = TRUE
            for x, y in zip(a, b):
                r = and_(r, self.truth(self.equal(x, y)))
            return r
        if type(a) is Ref and type(b) is Ref:
            if a == b:
                return TRUE
            oa, ob = self.obj(a), self.obj(b)
            if oa.kind == ob.kind and oa.kind in ('list', 'dict'):
                fa, fb = self.freeze(a), self.freeze(b)
                if oa.kind == 'list' and oa.x is None and ob.x is None:
                    if len(oa.f['items']) != len(ob.f['items']):
                        return FALSE
                return ir.eq(fa, fb)
            return FALSE
        if type(a) is not type(b) and (type(a) is Ref or type(b) is Ref):
            return FALSE
        if same(a, b):
            return TRUE
        return FALSE if not (type(a) is Node and type(b) is Node) else unk('eq')

    def is_same(self, a, b):
        if type(a) is Phi:
            return self.branch(a.c, lambda: self.is_same(a.a, b), lambda: self.is_same(a.b, b))
        if type(b) is Phi:
            return self.branch(b.c, lambda: self.is_same(a, b.a), lambda: self.is_same(a, b.b))
        if type(a) is Node and type(b) is Node:
            return ir.eq(a, b)
        if same(a, b):
            return TRUE
        return FALSE

    def contains(self, a, b):
        if type(a) is Phi:
            return self.branch(a.c, lambda: self.contains(a.a, b), lambda: self.contains(a.b, b))
        if type(b) is Ref:
            o = self.obj(b)
            if o.kind == 'dict':
                k = self.hkey(a)
                if k is None:
                    return self.dyn_contains(a, o)
                p, _ = o.f.get(k, (FALSE, UNDEF))
                return self.st.decide(p)
            if o.kind == 'list' and o.x is None:
                b = o.f['items']
            elif o.kind == 'inst':
                m = self.find_method(b, '__contains__')
                if m is not None:
                    return self.call(m, [a], {})
        if type(b) is tuple:
            r = FALSE
            for x in b:
                if type(x) is Phi:
                    x = self.strip_undef(x, '?')
                q = self.compare('Eq', a, x)
                r = or_(r, self.truth(q) if type(q) is not Phi else unk('in'))
            return r
        if type(b) is Node:
            if b.op == 's' and type(a) is Node and a.op == 's':
                return raw('b', a.args[0] in b.args[0])
            if b.op == 'none':
                self.implicit('TypeError')
            return raw('truth', raw('f:in', self.freeze(a), b))
        return unk('in', self.freeze(a), self.freeze(b))

    def dyn_contains(self, a, o):
        r = FALSE
        for k, (p, v) in o.f.items():
            if type(k) is str:
                r = or_(r, and_(p, ir.eq(a, string(k))))
        return r

    def e_Attribute(self, e):
        return self.get_attr(self.ev(e.value), e.attr)

    def e_Subscript(self, e):
        base = self.ev(e.value)
        key = self.ev_index(e.slice)
        return self.get_item(base, key)

    def ev_index(self, s):
        if isinstance(s, ast.Slice):
            return self.e_Slice(s)
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x) for x in s.elts)
        return self.ev(s)

    def e_Slice(self, s):
        return SliceV(self.ev(s.lower) if s.lower else NONE, self.ev(s.upper) if s.upper else NONE,
                      self.ev(s.step) if s.step else NONE)

    def e_Lambda(self, e):
        return self.make_func(e, '<lambda>')

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(string(v.value))
            else:
                x = self.ev(v.value)
                spec = self.ev(v.format_spec) if v.format_spec else string('')
                if type(x) is Node and x.op == 's' and spec is string(''):
                    parts.append(x)
                else:
                    parts.append(raw('f:strfmt', spec, self.freeze(x)))
        r = string('')
        for p in parts:
            r = str_add(r, p)
        return r

    def e_FormattedValue(self, e):
        return raw('f:strfmt', string(''), self.freeze(self.ev(e.value)))

    def e_Starred(self, e):
        return self.ev(e.value)

    # comprehensions
    def e_ListComp(self, e):
        return self.compr(e, lambda: self.ev(e.elt), 'list')

    def e_SetComp(self, e):
        return self.compr(e, lambda: self.ev(e.elt), 'list')

    def e_GeneratorExp(self, e):
        return self.compr(e, lambda: self.ev(e.elt), 'list')

    def e_DictComp(self, e):
        return self.compr(e, None, 'dict')

    def compr(self, e, elt, kind):
        env = self.alloc(Obj('env', {}, self.fr.env))
        fr = Frame(env.oid, self.fr.mod, self.fr.name, self.fr.func)
        fr.globals = self.fr.globals
        tgt = env
        acc = self.new_list([]) if kind == 'list' else self.new_dict()
        # rewrite as nested for statements executed by the ordinary machinery
        if kind == 'list':
            inner = ast.Expr(value=_CallAppend(acc, e.elt))
        else:
            inner = ast.Expr(value=_DictSet(acc, e.key, e.value))
        stmt = inner
        for g in reversed(e.generators):
            body = [stmt]
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            stmt = ast.For(target=g.target, iter=g.iter, body=body, orelse=[])
        annotate_new(stmt, e._loc)
        saved = self.fr
        fr.returns = saved.returns
        # first iterable is evaluated in the enclosing scope: same names are visible
        self.frames.append(fr)
        try:
            self.exec(stmt)
        finally:
            self.frames.pop()
        if self.st is None:
            raise Dead()
        return acc

    def e__CallAppend(self, e):
        self.list_append(e.acc, self.ev(e.elt))
        return NONE

    def e__DictSet(self, e):
        k = self.ev(e.k)
        self.set_item(e.acc, k, self.ev(e.v))
        return NONE

    def e_Await(self, e):
        return self.ev(e.value)

    def e_Yield(self, e):
        self.unk_sites[ir.LOC[0]] = 'yield'
        return unk('yield')

    # ---------------------------------------------------------------- truth
    def truth(self, v):
        if type(v) is Node:
            return self.st.decide(truth(v))
        if type(v) is Phi:
            a = self.truth(v.a) if v.a is not UNDEF else FALSE
            b = self.truth(v.b) if v.b is not UNDEF else FALSE
            return ite(v.c, a, b)
        if type(v) is tuple:
            return raw('b', len(v) > 0)
        if type(v) is Ref:
            o = self.obj(v)
            if o.kind == 'dict':
                r = FALSE
                for k, (p, _) in o.f.items():
                    r = or_(r, p)
                return self.st.decide(r)
            if o.kind == 'list':
                if o.x is None:
                    return raw('b', len(o.f['items']) > 0)
                if o.x == 'sym':
                    return ir.lt(ZERO, o.f['count'])
                if o.x == 'phi':
                    c, a, b = o.f['phi']
                    ta = raw('b', len(a.f.get('items', ())) > 0) if a.x is None else unk('listtruth')
                    tb = raw('b', len(b.f.get('items', ())) > 0) if b.x is None else unk('listtruth')
                    return ite(c, ta, tb)
                return unk('listtruth')
            if o.kind in ('arr', 'view'):
                sh, b = self.arr(v)
                if not sh or all(int_of(d) == 1 for d in sh):
                    return truth(ir.subst(b, {ir.iv(k): ZERO for k in range(len(sh))}))
                self.events.append(('array-truth', ir.LOC[0], self.st.pc))
                self.maybe_throw(raw('atom', 'arraytruth', 'bool'), 'ValueError')
                return raw('truth', self.freeze(v))
            if o.kind == 'inst':
                m = self.find_method(v, '__bool__') or self.find_method(v, '__len__')
                if m is not None:
                    return self.truth(self.call(m, [], {}))
            return TRUE
        if v is UNDEF:
            return FALSE
        return TRUE

    # ------------------------------------------------------------ attributes
    def find_in_class(self, cls, name):
        o = self.st.heap.get(cls.oid)
        v = o.f.get(name)
        if v is not None:
            return v
        for b in cls.bases:
            if type(b) is ClassV:
                v = self.find_in_class(b, name)
                if v is not None:
                    return v
        return None

    def find_method(self, ref, name):
        o = self.obj(ref)
        if o.kind != 'inst' or type(o.x) is not ClassV:
            return None
        v = self.find_in_class(o.x, name)
        if v is None:
            return None
        return self.bind_method(v, ref, o.x)

    def bind_method(self, v, ref, cls):
        if type(v) is Func:
            if v.kind == 'staticmethod':
                return v
            if v.kind == 'classmethod':
                return Bound(v, cls)
            return Bound(v, ref)
        return v

    def get_attr(self, v, name):
        if type(v) is Phi:
            return self.branch(v.c, lambda: self.get_attr(v.a, name), lambda: self.get_attr(v.b, name))
        if type(v) is Ref:
            o = self.obj(v)
            if o.kind == 'inst':
                if name in o.f:
                    x = o.f[name]
                    if type(x) is Phi:
                        x = self.strip_attr(x, name)
                    if x is UNDEF or type(x) is Node and x.op == 'undef':
                        self.implicit('AttributeError', string(name))
                    return x
                if name == '__dict__':
                    return self.alloc(Obj('dict', {k: (TRUE, x) for k, x in o.f.items()}))
                if name == '__class__':
                    return o.x
                if type(o.x) is ClassV:
                    x = self.find_in_class(o.x, name)
                    if x is not None:
                        if type(x) is Func and x.kind == 'property':
                            return self.call(Bound(x, v), [], {})
                        return self.bind_method(x, v, o.x)
                    m = self.find_in_class(o.x, '__getattr__')
                    if m is not None:
                        return self.call(Bound(m, v), [string(name)], {})
                if o.x == 'opaque':
                    return unk('attr:' + name, raw('atom', 'obj%d' % v.oid, 'obj'))
                self.implicit('AttributeError', string(name))
            if o.kind in ('arr', 'view'):
                return self.arr_attr(v, name)
            if o.kind == 'ext' and name in o.f:
                return o.f[name]
            return BuiltinMethod(v, name)
        if type(v) is ModV:
            o = self.st.heap.get(v.oid)
            if name in o.f:
                return o.f[name]
            m = self.load_module(v.name + '.' + name)
            if m is not None:
                return m
            self.implicit('AttributeError', string(name))
        if type(v) is Ext:
            return self.ext_attr(v, name)
        if type(v) is ClassV:
            if name == '__name__':
                return string(v.name)
            x = self.find_in_class(v, name)
            if x is None:
                self.implicit('AttributeError', string(name))
            if type(x) is Func and x.kind == 'classmethod':
                return Bound(x, v)
            return x
        if type(v) is Node:
            if v.op == 'none':
                self.implicit('AttributeError', string(name))
            if v.op == 'ite':
                if v.args[1].op == 'none' or v.args[2].op == 'none':
                    c = v.args[0] if v.args[1].op == 'none' else not_(v.args[0])
                    self.maybe_throw(c, 'AttributeError', string(name))
            return self.scalar_attr(v, name)
        if type(v) is ExcV:
            if name == 'args':
                return tuple(v.args)
            return unk('excattr')
        if type(v) is tuple or type(v) is SymSeq:
            return BuiltinMethod(v, name)
        if type(v) is Func and name == '__name__':
            return string(v.name.split('.')[-1])
        if type(v) is Func:
            x = getattr(v, 'attrs', {}).get(name)
            if x is not None:
                return x
        if type(v) is Bound:
            return self.get_attr(v.fn, name)
        if v is UNDEF:
            self.implicit('UnboundLocalError')
        if type(v) is WhereIdx:
            if name == 'size':
                return v.count()
            if name == 'shape':
                return (v.count(),)
            return BuiltinMethod(v, name)
        return unk('attr:' + name, fresh_id())

    def strip_attr(self, v, name):
        if type(v) is Phi:
            if v.a is UNDEF:
                self.maybe_throw(v.c, 'AttributeError', string(name))
                return self.strip_attr(v.b, name)
            if v.b is UNDEF:
                self.maybe_throw(not_(v.c), 'AttributeError', string(name))
                return self.strip_attr(v.a, name)
        return v

    def set_attr(self, v, name, x):
        if type(v) is Phi:
            return self.branch(v.c, lambda: self.set_attr(v.a, name, x), lambda: self.set_attr(v.b, name, x))
        if type(v) is Ref:
            o = self.obj(v)
            if o.kind == 'inst' and type(o.x) is ClassV:
                p = self.find_in_class(o.x, name)
                if type(p) is Func and p.kind == 'property':
                    if getattr(p, 'setter', None) is not None:
                        self.call(Bound(p.setter, v), [x], {})
                        return NONE
                    self.implicit('AttributeError', string(name))
            if o.kind in ('arr', 'view'):
                if name == 'shape':
                    return NONE
                return NONE
            self.note_write(v)
            self.st.heap.set(v.oid, o.put(name, x))
            return NONE
        if type(v) is ModV:
            self.setf(v.oid, name, x)
        elif type(v) is ClassV:
            self.setf(v.oid, name, x)
        elif type(v) is Node and v.op == 'none':
            self.implicit('AttributeError', string(name))
        elif type(v) is Func:
            if not hasattr(v, 'attrs'):
                v.attrs = {}
            v.attrs[name] = x
        return NONE

    # ------------------------------------------------------------- subscripts
    def hkey(self, k):
        if type(k) is Node:
            if k.op == 's':
                return k.args[0]
            if k.op == 'n':
                return ('n', k.args[0])
            if k.op == 'b':
                return ('n', ir.num(int(k.args[0])).args[0])
            if k.op == 'none':
                return ('none',)
            return None
        if type(k) is tuple:
            q = [self.hkey(x) for x in k]
            if any(x is None for x in q):
                return None
            return ('t',) + tuple(q)
        if type(k) in (Ref, ClassV, Func):
            return ('ref', getattr(k, 'oid', id(k)))
        return None

    def unkey(self, k):
        if type(k) is str:
            return string(k)
        if k[0] == 'n':
            return num(k[1])
        if k[0] == 'none':
            return NONE
        if k[0] == 't':
            return tuple(self.unkey(x) for x in k[1:])
        if k[0] == 'ref':
            return Ref(k[1])
        return unk('key')

    def dict_keys(self, ref):
        o = self.obj(ref)
        return [(k, self.st.decide(p)) for k, (p, v) in o.f.items() if k != '__sym__' and self.st.decide(p) is not FALSE]

    def get_item(self, v, key):
        if type(v) is Phi:
            return self.branch(v.c, lambda: self.get_item(v.a, key), lambda: self.get_item(v.b, key))
        if type(key) is Phi:
            return self.branch(key.c, lambda: self.get_item(v, key.a), lambda: self.get_item(v, key.b))
        if type(v) is Ref:
            o = self.obj(v)
            k = o.kind
            if k == 'dict':
                return self.dict_get(v, key)
            if k in ('arr', 'view'):
                key = self.fix_key(key)
                rec = o.f.get('fields')
                if type(key) is Node and key.op == 's':
                    return self.rec_get(v, key.args[0])
                return self.getitem_arr(v, key)
            if k == 'list':
                return self.list_get(v, o, key)
            if k == 'inst':
                m = self.find_method(v, '__getitem__')
                if m is not None:
                    return self.call(m, [key], {})
                self.implicit('TypeError', string('not subscriptable'))
            if k == 'ext':
                return self.ext_getitem(v, o, key)
            return unk('item', self.freeze(v), self.freeze(key))
        if type(v) is tuple:
            if type(key) is Node:
                i = int_of(key)
                if i is not None:
                    if -len(v) <= i < len(v):
                        return v[i]
                    self.implicit('IndexError')
                if all(type(x) is Node for x in v):
                    return ir.pick(key, *v)
                r = v[-1]
                for i2 in reversed(range(len(v) - 1)):
                    r = self.mval(ir.eq(key, num(i2)), v[i2], r)
                return r
            if type(key) is SliceV:
                a, b, c = [None if q.op == 'none' else int_of(q) for q in (key.a, key.b, key.c)]
                return v[slice(a, b, c)]
            if type(key) is tuple:
                self.implicit('TypeError')
            return unk('tupleitem')
        if type(v) is Node:
            if v.op in ('none', 'n', 'b') or v.op == 'atom' and v.args[1] == 'num':
                self.implicit('TypeError', string('not subscriptable'))
            if v.op == 's':
                s = v.args[0]
                if type(key) is SliceV:
                    a, b, c = [None if q.op == 'none' else int_of(q) for q in (key.a, key.b, key.c)]
                    return string(s[slice(a, b, c)])
                i = int_of(key)
                if i is not None:
                    if -len(s) <= i < len(s):
                        return string(s[i])
                    self.implicit('IndexError')
            if v.op == 'ite':
                return self.branch(v.args[0], lambda: self.get_item(v.args[1], key), lambda: self.get_item(v.args[2], key))
            if ir.kind_of(v) == 'str':
                if type(key) is SliceV:
                    return raw('f:strslice', v, key.a, key.b, key.c)
                return raw('f:strslice', v, key, NONE, string('i'))
            return raw('get', v, self.freeze(key))
        if type(v) is WhereIdx:
            i = int_of(key) if type(key) is Node else None
            return unk('whereitem', v.cond, self.freeze(key))
        if type(v) is SymSeq:
            if type(key) is Node:
                return v.elem(key)
        if type(v) is Ext:
            return Ext(v.path + '[]')
        return unk('item', self.freeze(v), self.freeze(key))

    def fix_key(self, key):
        """unwrap 1-tuples produced by where(cond)"""
        if type(key) is tuple and len(key) == 1 and type(key[0]) in (WhereIdx, DiagIdx):
            return key[0]
        if type(key) is tuple:
            out = []
            for k in key:
                if type(k) is tuple and len(k) == 1 and type(k[0]) in (WhereIdx, DiagIdx):
                    out.append(k[0])
                else:
                    out.append(k)
            return tuple(out)
        return key

    def dict_get(self, v, key, default=None):
        o = self.obj(v)
        k = self.hkey(key)
        if k is None:
            # dynamic key: distribute over the known string keys
            if type(key) is Node and key.op == 'ite':
                return self.branch(key.args[0], lambda: self.dict_get(v, key.args[1], default),
                                   lambda: self.dict_get(v, key.args[2], default))
            opts = [(kk, p, x) for kk, (p, x) in o.f.items() if type(kk) is str and self.st.decide(p) is not FALSE]
            if type(key) is Node and opts and o.x != 'skel':
                r = default if default is not None else UNDEF
                for kk, p, x in reversed(opts):
                    r = self.mval(and_(p, ir.eq(key, string(kk))), x, r)
                if default is None:
                    r = self.strip_key(r)
                return r
            return unk('dictitem', self.freeze(key))
        p, x = o.f.get(k, (FALSE, UNDEF))
        p = self.st.decide(p)
        if default is None:
            self.maybe_throw(not_(p), 'KeyError', key if type(key) is Node else string('?'))
            if type(x) is Phi:
                x = self.strip_key(x)
            return x
        if p is TRUE:
            return x
        if p is FALSE or x is UNDEF:
            return default
        return self.mval(p, x, default)

    def strip_key(self, v):
        if type(v) is Phi:
            if v.a is UNDEF:
                self.maybe_throw(v.c, 'KeyError')
                return self.strip_key(v.b)
            if v.b is UNDEF:
                self.maybe_throw(not_(v.c), 'KeyError')
                return self.strip_key(v.a)
        elif v is UNDEF:
            self.implicit('KeyError')
        return v

    def list_get(self, v, o, key):
        if type(key) is SliceV:
            q = self.to_seq(v)
            a, b, c = [None if x.op == 'none' else int_of(x) for x in (key.a, key.b, key.c)]
            if q is not None and all(x is not None or y.op == 'none' for x, y in ((a, key.a), (b, key.b), (c, key.c))):
                return self.new_list(q[slice(a, b, c)])
            return unk('listslice')
        if type(key) is tuple:
            self.implicit('TypeError', string('list indices'))
        i = int_of(key)
        if o.x is None:
            its = o.f['items']
            if i is not None:
                if -len(its) <= i < len(its):
                    return its[i]
                self.implicit('IndexError')
            if its and all(type(x) is Node for x in its):
                return ir.pick(key, *its)
            if its:
                r = its[-1]
                for i2 in reversed(range(len(its) - 1)):
                    r = self.mval(ir.eq(key, num(i2)), its[i2], r)
                return r
            self.implicit('IndexError')
        if o.x == 'sym' and len(o.f['vals']) == 1 and not o.f['items']:
            idx = key
            if i is not None and i < 0:
                idx = ir.add(o.f['count'], key)
            return self.subst_val(o.f['vals'][0], {o.f['li']: idx})
        if o.x == 'mu':
            base = o.f['base']
            pend = o.f['pend']
            if i == -1 and pend:
                return pend[-1]
            return raw('get', raw('mu', o.f['L'], 'list%d' % v.oid), key)
        if o.x == 'phi':
            c, a, b = o.f['phi']
            ra = a.f['items'][i] if a.x is None and i is not None and -len(a.f['items']) <= i < len(a.f['items']) else unk('li')
            rb = b.f['items'][i] if b.x is None and i is not None and -len(b.f['items']) <= i < len(b.f['items']) else unk('li')
            return self.mval(c, ra, rb)
        return unk('listitem', self.freeze(key))

    def set_item(self, v, key, x):
        if type(v) is Phi:
            return self.branch(v.c, lambda: self.set_item(v.a, key, x), lambda: self.set_item(v.b, key, x))
        if type(v) is Ref:
            o = self.obj(v)
            if o.kind == 'dict':
                k = self.hkey(key)
                self.note_write(v)
                if k is None:
                    f = dict(o.f)
                    for kk, (p, old) in o.f.items():
                        if type(kk) is str and type(key) is Node:
                            f[kk] = (p, self.mval(ir.eq(key, string(kk)), x, old))
                    self.st.heap.set(v.oid, Obj('dict', f, o.x))
                    return NONE
                f = dict(o.f)
                f[k] = (TRUE, x)
                self.st.heap.set(v.oid, Obj('dict', f, o.x))
            elif o.kind in ('arr', 'view'):
                key = self.fix_key(key)
                if type(key) is Node and key.op == 's':
                    self.rec_set(v, key.args[0], x)
                    return NONE
                if type(x) is Phi:
                    try:
                        self.arr(x)
                    except NotArr:
                        return self.branch(x.c, lambda: self.set_item(v, key, x.a), lambda: self.set_item(v, key, x.b))
                self.setitem_arr(v, key, x)
            elif o.kind == 'list':
                i = int_of(key) if type(key) is Node else None
                if o.x is None and i is not None and -len(o.f['items']) <= i < len(o.f['items']):
                    it = list(o.f['items'])
                    it[i] = x
                    self.st.heap.set(v.oid, Obj('list', {'items': tuple(it)}))
                else:
                    self.st.heap.set(v.oid, Obj('list', {'items': (), 'count': unk('len'), 'li': raw('li', 'x'),
                                                         'vals': (unk('listset'),)}, 'sym'))
            elif o.kind == 'inst':
                m = self.find_method(v, '__setitem__')
                if m is not None:
                    self.call(m, [key, x], {})
            elif o.kind == 'ext':
                self.ext_setitem(v, o, key, x)
            return NONE
        if type(v) is Node and v.op in ('none', 'n'):
            self.implicit('TypeError')
        if type(v) is tuple:
            self.implicit('TypeError')
        return NONE

    def list_append(self, ref, x):
        o = self.obj(ref)
        self.note_write(ref)
        if o.x is None:
            self.st.heap.set(ref.oid, Obj('list', {'items': o.f['items'] + (x,)}))
        elif o.x == 'mu':
            self.st.heap.set(ref.oid, Obj('list', dict(o.f, pend=o.f['pend'] + (x,)), 'mu'))
        elif o.x == 'sym':
            self.st.heap.set(ref.oid, Obj('list', {'items': (), 'count': ir.add(o.f['count'], ONE), 'li': o.f['li'],
                                                   'vals': (unk('listapp'),)}, 'sym'))
        return NONE

    def list_extend(self, ref, v):
        q = self.to_seq(v)
        if q is None:
            o = self.obj(ref)
            self.st.heap.set(ref.oid, Obj('list', {'items': (), 'count': unk('len', self.freeze(v)), 'li': raw('li', 'x'),
                                                   'vals': (unk('listext', self.freeze(v)),)}, 'sym'))
            return NONE
        for x in q:
            self.list_append(ref, x)
        return NONE

    def dict_copy(self, ref):
        o = self.obj(ref)
        return self.alloc(Obj('dict', dict(o.f), None))

    def dict_update(self, ref, src):
        if type(src) is Phi:
            return self.branch(src.c, lambda: self.dict_update(ref, src.a), lambda: self.dict_update(ref, src.b))
        if type(src) is Ref and self.obj(src).kind == 'dict':
            for k, (p, v) in self.obj(src).f.items():
                o = self.obj(ref)
                op, ov = o.f.get(k, (FALSE, UNDEF))
                if p is TRUE:
                    e = (TRUE, v)
                else:
                    e = (or_(p, op), v if ov is UNDEF else self.mval(p, v, ov))
                self.note_write(ref)
                self.st.heap.set(ref.oid, Obj('dict', dict(o.f) | {k: e}, o.x))
        elif type(src) is Node and src.op == 'none':
            self.implicit('TypeError')
        else:
            q = self.to_seq(src)
            if q is not None:
                for kv in q:
                    kv = self.to_seq(kv, 2)
                    self.set_item(ref, kv[0], kv[1])
        return NONE

    # ------------------------------------------------------------------ calls
    def e_Call(self, e):
        f = self.ev(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                q = self.to_seq(v)
                if q is None:
                    args.append(unk('star', self.freeze(v)))
                else:
                    args.extend(q)
            else:
                args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                self.spread_kw(kw, v)
            else:
                kw[k.arg] = v
        ir.LOC[0] = e._loc
        if type(f) is Ext and f.path == 'builtins.super':
            return self.super_obj(args)
        return self.call(f, args, kw)

    def spread_kw(self, kw, v):
        if type(v) is Ref and self.obj(v).kind == 'dict':
            for k, (p, x) in self.obj(v).f.items():
                p = self.st.decide(p)
                if p is FALSE:
                    continue
                if type(k) is str:
                    kw[k] = x if p is TRUE else _MaybeKw(p, x)
        elif type(v) is Phi:
            # merge both alternatives as conditional keywords
            a, b = {}, {}
            self.spread_kw(a, v.a)
            self.spread_kw(b, v.b)
            for k in set(a) | set(b):
                pa, xa = (a[k].p, a[k].x) if type(a.get(k)) is _MaybeKw else ((TRUE, a[k]) if k in a else (FALSE, UNDEF))
                pb, xb = (b[k].p, b[k].x) if type(b.get(k)) is _MaybeKw else ((TRUE, b[k]) if k in b else (FALSE, UNDEF))
                p = ite(v.c, pa, pb)
                x = xb if xa is UNDEF else xa if xb is UNDEF else self.mval(v.c, xa, xb)
                kw[k] = x if p is TRUE else _MaybeKw(p, x)

    def super_obj(self, args):
        slf = self.st.heap.get(self.fr.env).f.get(self.fr.selfname) if hasattr(self.fr, 'selfname') else None
        cls = self.fr.func.cls if self.fr.func is not None else None
        return _Super(slf, cls)

    def call(self, f, args, kw):
        if type(f) is Phi:
            return self.branch(f.c, lambda: self.call(f.a, args, kw), lambda: self.call(f.b, args, kw))
        if type(f) is Bound:
            return self.call_func(f.fn, [f.slf] + list(args), kw)
        if type(f) is Func:
            return self.call_func(f, list(args), kw)
        if type(f) is ClassV:
            return self.instantiate(f, args, kw)
        if type(f) is Ext:
            return self.ext_call(f.path, args, kw)
        if type(f) is BuiltinMethod:
            return self.builtin_method(f.recv, f.name, args, kw)
        if type(f) is PyFunc:
            return f.fn(self, args, kw)
        if type(f) is Ref:
            o = self.obj(f)
            if o.kind == 'ext':
                return self.ext_obj_call(f, o, args, kw)
            if o.kind == 'inst':
                m = self.find_method(f, '__call__')
                if m is not None:
                    return self.call(m, args, kw)
            self.implicit('TypeError', string('not callable'))
        if type(f) is Node:
            if f.op in ('none', 'n', 's', 'b'):
                self.implicit('TypeError', string('not callable'))
            return unk('call', f, *[self.freeze(a) for a in args])
        return unk('call', fresh_id())

    def instantiate(self, cls, args, kw):
        for b in self.mro(cls):
            if type(b) is Ext and b.path.split('.')[-1] in EXC_BASES:
                return ExcV(self.exc_class(cls), tuple(a for a in args if type(a) is Node))
            if type(b) is Ext and b.path in ('collections.namedtuple',):
                return tuple(args)
        ref = self.alloc(Obj('inst', {}, cls))
        init = self.find_in_class(cls, '__init__')
        if init is not None:
            self.call(Bound(init, ref), args, kw)
        return ref

    def mro(self, cls):
        out = []
        for b in cls.bases:
            out.append(b)
            if type(b) is ClassV:
                out.extend(self.mro(b))
        return out

    def bind_args(self, f, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        kw = dict(kw)
        if len(args) > len(pos):
            if a.vararg is None:
                self.implicit('TypeError', string('%s() takes %d positional arguments but %d were given' % (f.name, len(pos), len(args))))
            env[a.vararg.arg] = tuple(args[len(pos):])
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        for n, v in zip(pos, args):
            env[n] = v
        nd = len(f.defaults)
        for k, n in enumerate(pos):
            if n in env:
                if n in kw:
                    self.implicit('TypeError', string('multiple values for ' + n))
                continue
            dflt = f.defaults[k - (len(pos) - nd)] if k >= len(pos) - nd else None
            if n in kw:
                v = kw.pop(n)
                if type(v) is _MaybeKw:
                    if dflt is None:
                        self.maybe_throw(not_(v.p), 'TypeError', string('missing ' + n))
                        v = v.x
                    else:
                        v = self.mval(v.p, v.x, dflt)
                env[n] = v
            elif dflt is not None:
                env[n] = dflt
            else:
                self.implicit('TypeError', string('missing argument ' + n))
        for x in a.kwonlyargs:
            if x.arg in kw:
                v = kw.pop(x.arg)
                env[x.arg] = v if type(v) is not _MaybeKw else self.mval(v.p, v.x, f.kwdefaults.get(x.arg, NONE))
            elif x.arg in f.kwdefaults:
                env[x.arg] = f.kwdefaults[x.arg]
            else:
                self.implicit('TypeError', string('missing argument ' + x.arg))
        if a.kwarg is not None:
            d = {}
            for k, v in kw.items():
                d[k] = (v.p, v.x) if type(v) is _MaybeKw else (TRUE, v)
            env[a.kwarg.arg] = self.alloc(Obj('dict', d))
        elif kw:
            for k, v in kw.items():
                if type(v) is _MaybeKw:
                    self.maybe_throw(v.p, 'TypeError', string('unexpected keyword ' + k))
                else:
                    self.implicit('TypeError', string('unexpected keyword ' + k))
        return env

    def qualname(self, f):
        if f.cls is not None:
            return f.cls.name + '.' + f.name.split('.')[-1]
        return f.name

    def call_func(self, f, args, kw):
        q = self.qualname(f)
        h = self.summaries.get(q)
        if h is not None:
            r = h(self, f, args, kw)
            if r is not NotImplemented:
                return r
        depth = sum(1 for x in self.callstack if x[0] is f.node)
        if depth >= self.rec_limit:
            prev = [x for x in self.callstack if x[0] is f.node][-1]
            same = len(prev[3]) == len(args) and all(self.in_heap(prev[5], a) is self.freeze(b) for a, b in zip(prev[3], args)) and \
                sorted(prev[4]) == sorted(kw) and all(self.in_heap(prev[5], prev[4][k]) is self.freeze(kw[k]) for k in kw)
            self.events.append(('recursion', q, ir.LOC[0], self.st, same))
            self.sink.append((ExcV('RecursionError', (), True), self.st))
            raise Dead()
        callloc = ir.LOC[0]
        env = self.bind_args(f, args, kw)
        node = f.node
        self.funcs_analysed.add((f.mod.name, q))
        info = scope_info(node)
        ref = self.alloc(Obj('env', env, f.closure if f.closure != f.mod.oid else None))
        fr = Frame(ref.oid, f.mod, q, f)
        fr.globals, fr.locals = info[0], info[1]
        fr.nonlocals = info[2]
        pos = node.args.posonlyargs + node.args.args
        if f.cls is not None and pos:
            fr.selfname = pos[0].arg
        entry_pc = self.st.pc
        self.frames.append(fr)
        self.callstack.append((node, q, callloc, args, kw, self.st.heap.root))
        try:
            if isinstance(node, ast.Lambda):
                v = self.ev(node.body)
                return v
            if info[3]:
                return self.run_generator(fr, node, f)
            self.exec_block(node.body)
            if self.st is not None:
                fr.returns.append((NONE, self.st))
            if not fr.returns:
                raise Dead()
            v, st = self.merge_exits(fr.returns, entry_pc)
            self.st = st
            return v
        finally:
            self.frames.pop()
            self.callstack.pop()
            ir.LOC[0] = callloc

    def in_heap(self, root, v):
        s = self.st
        self.st = s.fork()
        self.st.heap = Heap(root)
        try:
            return self.freeze(v)
        finally:
            self.st = s

    def run_generator(self, fr, node, f):
        """generators are executed eagerly into a list"""
        acc = self.new_list([])
        fr.gen = acc
        self.exec_block(node.body)
        if self.st is None:
            if fr.returns:
                _, self.st = self.merge_exits(fr.returns, ())
            else:
                raise Dead()
        return acc

    def e_Yield(self, e):
        acc = getattr(self.fr, 'gen', None)
        v = self.ev(e.value) if e.value is not None else NONE
        if acc is None:
            return unk('yield')
        self.list_append(acc, v)
        return NONE

    # ----------------------------------------------------------------- freeze
    def freeze(self, v, depth=0, seen=()):
        """node that stands for the whole (deep) value"""
        if type(v) is Node:
            return v
        if depth > 12:
            return unk('deep')
        if type(v) is tuple:
            return raw('tuple', *[self.freeze(x, depth + 1, seen) for x in v])
        if type(v) is Phi:
            return ite(v.c, self.freeze(v.a, depth + 1, seen), self.freeze(v.b, depth + 1, seen))
        if v is UNDEF:
            return raw('undef')
        if type(v) is Ref:
            if v.oid in seen:
                return raw('cycle')
            seen = seen + (v.oid,)
            o = self.obj(v)
            if o is None:
                return unk('gone')
            if o.kind in ('arr', 'view'):
                from .arrays import close_arr
                sh, b = self.arr(v)
                rec = self.rec_fields(v)
                if rec:
                    return raw('rec', *[x for k in sorted(rec) for x in (string(k), self.freeze(rec[k], depth + 1, seen))])
                return close_arr(sh, b)
            if o.kind == 'dict':
                parts = []
                for k in sorted(o.f, key=repr):
                    p, x = o.f[k]
                    if p is FALSE:
                        continue
                    parts += [string(k if type(k) is str else repr(k)), p, self.freeze(x, depth + 1, seen)]
                return raw('dict', *parts)
            if o.kind == 'list':
                if o.x is None:
                    return raw('list', *[self.freeze(x, depth + 1, seen) for x in o.f['items']])
                if o.x == 'sym':
                    vals = [self.freeze(x, depth + 1, seen) for x in o.f['vals']]
                    if len(vals) == 1:
                        return raw('symlist', ir.bind('arr', [o.f['li']], vals[0], o.f['count']))
                    return raw('symlist', o.f['count'], *vals)
                if o.x == 'phi':
                    c, a, b = o.f['phi']
                    fa = raw('list', *[self.freeze(x, depth + 1, seen) for x in a.f.get('items', ())])
                    fb = raw('list', *[self.freeze(x, depth + 1, seen) for x in b.f.get('items', ())])
                    return ite(c, fa, fb)
                return raw('mulist', raw('mu', o.f['L'], 'list%d' % v.oid), *[self.freeze(x, depth + 1, seen) for x in o.f['pend']])
            if o.kind == 'inst':
                parts = [string(getattr(o.x, 'name', str(o.x)))]
                for k in sorted(o.f):
                    parts += [string(k), self.freeze(o.f[k], depth + 1, seen)]
                return raw('inst', *parts)
            return raw('atom', 'obj%d' % v.oid, 'obj')
        if type(v) is Func:
            return raw('atom', 'func:%s@%s' % (v.name, getattr(v.node, 'lineno', 0)), 'obj')
        if type(v) is Bound:
            return raw('boundm', self.freeze(v.fn), raw('atom', 'obj%d' % v.slf.oid if type(v.slf) is Ref else 'cls', 'obj'))
        if type(v) is Ext:
            return raw('atom', 'ext:' + v.path, 'obj')
        if type(v) in (ClassV, ModV):
            return raw('atom', 'cls:' + v.name, 'obj')
        if type(v) is SliceV:
            return raw('slice', self.freeze(v.a), self.freeze(v.b), self.freeze(v.c))
        if type(v) is WhereIdx:
            return raw('where', v.count())
        if v is ELLIPSIS:
            return raw('ellipsis')
        if type(v) is ExcV:
            return raw('exc', string(v.name))
        if type(v) is SymSeq:
            return raw('seq', v.count)
        return unk('freeze:' + type(v).__name__, fresh_id())


def join_dicts(a, b):
    """shape of a dictionary that has either of two shapes"""
    x, y = {k: (p, s) for k, p, s in a[1]}, {k: (p, s) for k, p, s in b[1]}
    out = []
    for k in sorted(set(x) | set(y), key=repr):
        p, s = x.get(k, (False, None))
        q, t = y.get(k, (False, None))
        out.append((k, p and q, s if t is None or s == t else t if s is None else ('unk',)))
    return ('refdict', tuple(out))


def settled(o, st):
    """variables whose alternatives the path condition has settled"""
    f = None
    for k, v in o.f.items():
        w = v
        while type(w) is Phi:
            c = st.decide(w.c)
            if c is TRUE:
                w = w.a
            elif c is FALSE:
                w = w.b
            else:
                break
        if w is not v:
            f = f or dict(o.f)
            f[k] = w
    return o if f is None else Obj(o.kind, f, o.x)


class PyFunc(object):
    """a specification-level callable"""
    def __init__(self, fn):
        self.fn = fn


class _MaybeKw(object):
    def __init__(self, p, x):
        self.p, self.x = p, x


class _Super(object):
    def __init__(self, slf, cls):
        self.slf, self.cls = slf, cls


class _CallAppend(ast.expr):
    _fields = ('elt',)

    def __init__(self, acc, elt):
        super().__init__()
        self.acc, self.elt = acc, elt


class _DictSet(ast.expr):
    _fields = ('k', 'v')

    def __init__(self, acc, k, v):
        super().__init__()
        self.acc, self.k, self.v = acc, k, v


def fresh_id():
    return ir.fresh()


def floordiv(a, b):
    if a.op == 'n' and b.op == 'n' and b.args[0] != 0:
        return num(a.args[0] // b.args[0])
    return raw('f:floordiv', a, b)


def mod(a, b):
    if a.op == 'n' and b.op == 'n' and b.args[0] != 0:
        return num(a.args[0] % b.args[0])
    return raw('f:mod', a, b)


def str_add(a, b):
    if a.op == 's' and b.op == 's':
        return string(a.args[0] + b.args[0])
    if a.op == 's' and a.args[0] == '':
        return b
    return raw('add', a, b)


def mu_leaves(n, L):
    return [x for x in n.leaves if x.op == 'mu' and x.args[0] == L]


def mu_order(n, L):
    """mu leaves of loop L in deterministic discovery order"""
    return sorted(mu_leaves(n, L), key=lambda x: x.args[1])


def addend(v, m):
    """v = m + e  ->  e (under gates: ite(c, m+e, m) -> ite(c,e,0))"""
    if v is m:
        return ZERO
    if v.op == 'add':
        for a, b in ((v.args[0], v.args[1]), (v.args[1], v.args[0])):
            if m in a.leaves or a is m:
                if m.leaves and m.op != 'get' and m in b.leaves:
                    return None
                if m.op == 'get' and contains_node(b, m):
                    return None
                e = addend(a, m)
                if e is None:
                    return None
                return ir.add(e, b) if e is not ZERO else b
            if m.op == 'get' and contains_node(a, m):
                if contains_node(b, m):
                    return None
                e = addend(a, m)
                if e is None:
                    return None
                return ir.add(e, b) if e is not ZERO else b
    if v.op == 'ite':
        a, b = addend(v.args[1], m), addend(v.args[2], m)
        if a is not None and b is not None:
            return ite(v.args[0], a, b)
    return None


def contains_node(n, m):
    if n is m:
        return True
    if m.leaves and n.leaves.isdisjoint(m.leaves):
        return False
    for x in ir.walk(n):
        if x is m:
            return True
    return False


def close_any(e):
    from .arrays import close_arr
    if e[0] == 'arr':
        return close_arr(e[1], e[2])
    return e[1]


def annotate(tree, path):
    short = path
    fn = ['<module>']

    def go(n, func):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            f2 = func + '.' + n.name if func else n.name
        else:
            f2 = func
        n._loc = (short, getattr(n, 'lineno', 0), func)
        for c in ast.iter_child_nodes(n):
            if not hasattr(c, 'lineno'):
                c.lineno = getattr(n, 'lineno', 0)
            go(c, f2)
    go(tree, '')


def annotate_new(n, loc):
    for x in ast.walk(n):
        if not hasattr(x, '_loc'):
            x._loc = loc


_scope = {}


def scope_info(node):
    r = _scope.get(node)
    if r is not None:
        return r
    assigned, glob, nonl = set(), set(), set()
    gen = [False]
    if isinstance(node, ast.Lambda):
        r = ((), (), (), False)
        _scope[node] = r
        return r

    def targets(t):
        if isinstance(t, ast.Name):
            assigned.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                targets(x)
        elif isinstance(t, ast.Starred):
            targets(t.value)

    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                assigned.add(c.name)
                continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(c, (ast.Assign,)):
                for t in c.targets:
                    targets(t)
            elif isinstance(c, (ast.AugAssign, ast.AnnAssign, ast.For)):
                targets(c.target)
            elif isinstance(c, ast.NamedExpr):
                targets(c.target)
            elif isinstance(c, ast.With):
                for i in c.items:
                    if i.optional_vars is not None:
                        targets(i.optional_vars)
            elif isinstance(c, ast.ExceptHandler) and c.name:
                assigned.add(c.name)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names:
                    assigned.add((a.asname or a.name).split('.')[0])
            elif isinstance(c, ast.Global):
                glob.update(c.names)
            elif isinstance(c, ast.Nonlocal):
                nonl.update(c.names)
            elif isinstance(c, (ast.Yield, ast.YieldFrom)):
                gen[0] = True
            go(c)
    go(node)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        assigned.add(x.arg)
    r = (frozenset(glob), frozenset(assigned - glob - nonl), frozenset(nonl), gen[0])
    _scope[node] = r
    return r


CANON = {'np': 'numpy'}


def canon_ext(p):
    if p == 'math' or p.startswith('math.'):
        return p
    return p
