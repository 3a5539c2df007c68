"""Transfer functions of the library operations used by the analysed code
(numpy, math, scipy, json, os, copy, builtins).  Unknown library calls give an
`unk` node: anything that depends on one is reported as undecided, never as a
violation."""
from fractions import Fraction
import os

from . import ir
from .ir import (Node, NONE, TRUE, FALSE, ZERO, ONE, PI, num, string, ite, raw, unk, iv, lift, subst,
                 truth, not_, and_, or_, int_of, func)
from .heap import (Obj, Ref, Phi, UNDEF, Func, Bound, ClassV, ModV, Ext, BuiltinMethod, SliceV, ELLIPSIS,
                   WhereIdx, DiagIdx, ExcV, SymSeq, same)
from .arrays import NotArr, bcast, sum_axis, close_arr, mk_sum, shift, lin_same, linear, expand, SMALL

UFUNC1 = {'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'arctan': 'arctan', 'arcsin': 'arcsin', 'arccos': 'arccos',
          'atan': 'arctan', 'asin': 'arcsin', 'acos': 'arccos', 'sqrt': 'sqrt', 'exp': 'exp', 'log': 'log', 'log10': 'log10',
          'abs': 'abs', 'absolute': 'abs', 'fabs': 'abs', 'radians': 'radians', 'deg2rad': 'radians', 'degrees': 'degrees',
          'rad2deg': 'degrees', 'sinh': 'sinh', 'cosh': 'cosh', 'tanh': 'tanh', 'sign': 'sign', 'floor': 'floor',
          'ceil': 'ceil', 'isnan': 'isnan', 'isfinite': 'isfinite', 'square': 'square', 'negative': 'negative',
          'rint': 'rint', 'trunc': 'trunc', 'expm1': 'expm1', 'log1p': 'log1p', 'isinf': 'isinf', 'cbrt': 'cbrt', 'real': 'real'}
UFUNC2 = {'add': ir.add, 'subtract': ir.sub, 'multiply': ir.mul, 'divide': ir.div, 'true_divide': ir.div, 'power': ir.power,
          'arctan2': lambda a, b: func('arctan2', a, b), 'atan2': lambda a, b: func('arctan2', a, b),
          'hypot': lambda a, b: func('sqrt', ir.add(ir.mul(a, a), ir.mul(b, b))),
          'pow': ir.power, 'float_power': ir.power,
          'maximum': lambda a, b: mkmax(a, b), 'minimum': lambda a, b: ir.neg(mkmax(ir.neg(a), ir.neg(b))),
          'fmod': lambda a, b: raw('f:mod', a, b), 'mod': lambda a, b: raw('f:mod', a, b),
          'copysign': lambda a, b: ir.mul(func('abs', a), func('sign', b)),
          }
CMP2 = {'less': ir.lt, 'less_equal': ir.le, 'greater': lambda a, b: ir.lt(b, a), 'greater_equal': lambda a, b: ir.le(b, a),
        'equal': ir.eq, 'not_equal': lambda a, b: not_(ir.eq(a, b)),
        'logical_and': lambda a, b: and_(truth(a), truth(b)), 'logical_or': lambda a, b: or_(truth(a), truth(b)),
        'logical_xor': lambda a, b: not_(ir.eq(truth(a), truth(b)))}


def mkmax(a, b):
    if a is b:
        return a
    if a.op == 'n' and b.op == 'n':
        return a if a.args[0] >= b.args[0] else b
    return ite(ir.lt(a, b), b, a)


def ufunc1(name):
    nm = UFUNC1[name]
    if nm == 'square':
        return lambda a: ir.mul(a, a)
    if nm == 'negative':
        return ir.neg
    if nm == 'real':
        return lambda a: a
    return lambda a: func(nm, a)


class NpModel(object):
    # ---------------------------------------------------------- ext attributes
    def ext_attr(self, v, name):
        p = v.path
        full = p + '.' + name
        if full in ('numpy.pi', 'math.pi', 'scipy.pi'):
            return PI
        if full == 'math.e' or full == 'numpy.e':
            return func('exp', ONE)
        if full in ('numpy.inf', 'math.inf'):
            return raw('f:special', 'inf')
        if full in ('numpy.nan', 'math.nan'):
            return raw('f:special', 'nan')
        if full == 'numpy.newaxis':
            return NONE
        if full == 'os.environ':
            return Ext(full)
        return Ext(full)

    def scalar_attr(self, v, name):
        k = ir.kind_of(v)
        if k == 'str':
            return BuiltinMethod(v, name)
        if name in ('size', 'ndim') and v.op != 'get':
            return ONE if name == 'size' else ZERO
        if name == 'shape' and v.op not in ('get', 'unk'):
            return ()
        if name in ('real', 'T'):
            return v
        if v.op == 'unk':
            return unk('attr:' + name, v)
        if v.op == 'extres':
            return raw('extfield', v, name)
        if k == 'num' and name not in ('item', 'tolist', 'copy', 'astype', 'sum', 'max', 'min', 'mean', 'any', 'all', 'dot', 'flatten', 'round', 'is_integer', 'format', 'ravel', 'squeeze'):
            if v.op in ('n', 'add', 'mul', 'neg') or v.op == 'atom':
                self.implicit('AttributeError', string(name))
        return BuiltinMethod(v, name)

    def arr_attr(self, v, name):
        sh, b = self.arr(v)
        if name == 'shape':
            return tuple(sh)
        if name == 'size':
            r = ONE
            for d in sh:
                r = ir.mul(r, d)
            return r
        if name == 'ndim':
            return num(len(sh))
        if name == 'T':
            return self.transpose(v)
        if name == 'dtype':
            return Ext('numpy.dtype')
        if name in ('real', 'base', 'flat'):
            return v
        return BuiltinMethod(v, name)

    def transpose(self, v, axes=None):
        sh, b = self.arr(v)
        r = len(sh)
        if r < 2:
            return v
        if axes is None:
            axes = list(reversed(range(r)))
        m = {iv(axes[j]): raw('tv', 't%d' % j) for j in range(r)}
        b2 = subst(b, m)
        b2 = subst(b2, {raw('tv', 't%d' % j): iv(j) for j in range(r)})
        # views of transposes are represented as fresh arrays (no aliasing writes)
        nsh = tuple(sh[axes[j]] for j in range(r))
        return self.new_arr(nsh, b2)

    # ------------------------------------------------------------------ calls
    def ext_call(self, path, args, kw):
        head = path.split('.')[0]
        if head == 'builtins':
            return self.builtin_call(path[9:], args, kw)
        if head == 'numpy':
            return self.np_call(path, args, kw)
        if head == 'math':
            n = path[5:]
            if n in UFUNC1:
                return self.num_op(ufunc1(n), args[0])
            if n in UFUNC2:
                return self.num_op(UFUNC2[n], args[0], args[1])
            if n == 'isclose':
                return unk('isclose', *[self.freeze(a) for a in args])
            return unk('call:' + path, *[self.freeze(a) for a in args])
        if path in ('json.dump', 'json.dumps'):
            return self.json_dump(path, args, kw)
        if path in ('json.load', 'json.loads'):
            return self.json_load(path, args, kw)
        if path == 'collections.OrderedDict':
            r = self.new_dict()
            if args:
                self.dict_update(r, args[0])
            for k, v in kw.items():
                self.set_item(r, string(k), v)
            return r
        if path == 'collections.defaultdict':
            return self.new_dict()
        if path in ('copy.copy', 'copy.deepcopy'):
            return self.copy_value(args[0], path.endswith('deepcopy'))
        if path in ('os.path.isfile', 'os.path.exists'):
            p = args[0]
            if type(p) is Node and p.op == 'atom' and p.args[0].startswith('infile'):
                return TRUE
            return raw('atom', 'fsexists', 'bool') if type(p) is not Node else raw('truth', raw('f:fsexists', p))
        if path in ('os.remove', 'os.unlink'):
            self.fs_set(args[0], raw('absent'))
            return NONE
        if path in ('os.path.splitext',):
            p = args[0]
            if type(p) is Node and p.op == 's':
                a, b = os.path.splitext(p.args[0])
                return (string(a), string(b))
            return (raw('f:strsplitext0', p), raw('f:strsplitext1', p))
        if path in ('os.path.join',):
            if all(type(a) is Node and a.op == 's' for a in args):
                return string(os.path.join(*[a.args[0] for a in args]))
            return raw('f:strjoin', *[self.freeze(a) for a in args])
        if path in ('os.path.dirname', 'os.path.basename', 'os.path.abspath', 'os.fspath'):
            return args[0] if path == 'os.fspath' else raw('f:str' + path.split('.')[-1], self.freeze(args[0]))
        if path.startswith('warnings.') or path.startswith('matplotlib') or path.startswith('logging'):
            return NONE
        if path in ('contextlib.contextmanager', 'functools.wraps'):
            return args[0]
        if path == 'functools.partial':
            f = args[0]
            pre, pkw = list(args[1:]), dict(kw)
            from .interp import PyFunc
            return PyFunc(lambda self_, a, k: self_.call(f, pre + list(a), dict(pkw, **k)))
        if path == 'itertools.chain':
            out = []
            for a in args:
                q = self.to_seq(a)
                if q is None:
                    return unk('chain')
                out += q
            return self.new_list(out)
        if path.startswith('operator.'):
            n = path.split('.')[1]
            m = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'truediv': 'Div'}
            if n in m:
                return self.binop(m[n], args[0], args[1])
            if n == 'itemgetter':
                from .interp import PyFunc
                k = args[0]
                return PyFunc(lambda s, a, kk: s.get_item(a[0], k))
        if path.startswith('scipy.') or path.startswith('stl.'):
            return self.scipy_call(path, args, kw)
        if path.startswith('time.') or path.startswith('random.') or path.startswith('uuid.'):
            return raw('atom', 'nondet:' + path + str(ir.fresh()), 'num')
        return unk('call:' + path, *[self.freeze(a) for a in args])

    # --------------------------------------------------------------- builtins
    def builtin_call(self, n, args, kw):
        a = args[0] if args else None
        if n in ('any', 'all', 'sum', 'min', 'max', 'sorted', 'list', 'tuple', 'len', 'enumerate', 'zip', 'reversed', 'set', 'float', 'int', 'bool', 'str', 'abs', 'dict', 'iter', 'isinstance') and type(a) is Phi:
            rest = list(args[1:])
            return self.branch(a.c, lambda: self.builtin_call(n, [a.a] + rest, kw), lambda: self.builtin_call(n, [a.b] + rest, kw))
        if n == 'print':
            self.events.append(('print', ir.LOC[0]))
            return NONE
        if n == 'len':
            return self.b_len(a)
        if n == 'range':
            if len(args) == 1:
                st, en, sp = ZERO, a, ONE
            else:
                st, en = args[0], args[1]
                sp = args[2] if len(args) > 2 else ONE
            if type(st) is not Node or type(en) is not Node:
                return SymSeq(unk('range'), lambda i: i)
            k = int_of(sp)
            if k == 1:
                cnt = ir.sub(en, st)
                lf = linear(cnt)
                if set(lf) <= {None}:
                    cnt = num(max(0, lf.get(None, 0)))
                return SymSeq(cnt, lambda i: ir.add(st, i))
            if k is not None and int_of(st) is not None and int_of(en) is not None:
                seq = list(range(int_of(st), int_of(en), k))
                return SymSeq(num(len(seq)), lambda i: num(seq[int_of(i)]) if int_of(i) is not None else ir.add(st, ir.mul(sp, i)))
            if k == -1:
                return SymSeq(ir.sub(st, en), lambda i: ir.sub(st, i))
            return SymSeq(raw('f:ceildiv', ir.sub(en, st), sp), lambda i: ir.add(st, ir.mul(sp, i)))
        if n == 'enumerate':
            st = args[1] if len(args) > 1 else kw.get('start', ZERO)
            it = self.iter_items(a)
            if type(it) is list:
                if all(p is TRUE for p, _ in it):
                    return self.new_list([(ir.add(st, num(i)), x) for i, (p, x) in enumerate(it)])
                cnt = st
                out = []
                for p, x in it:
                    out.append((p, (cnt, x)))
                    cnt = ir.add(cnt, ite(p, ONE, ZERO))
                return ('__items__', out)
            if it is None:
                return SymSeq(unk('enum'), lambda i: (i, unk('enum', i)))
            return SymSeq(it.count, lambda i: (ir.add(st, i), it.elem(i)))
        if n == 'zip':
            its = [self.iter_items(x) for x in args]
            if all(type(x) is list for x in its):
                k = min([len(x) for x in its] or [0])
                return self.new_list([tuple(x[i][1] for x in its) for i in range(k)])
            syms = [x for x in its if type(x) is SymSeq]
            if any(x is None for x in its) or not syms:
                return SymSeq(unk('zip'), lambda i: tuple(unk('zip', i) for _ in its))
            c = syms[0].count
            return SymSeq(c, lambda i: tuple(x.elem(i) if type(x) is SymSeq else self.get_item(self.new_list([q for _, q in x]), i) for x in its))
        if n in ('list', 'tuple', 'set', 'frozenset', 'iter', 'reversed', 'sorted'):
            if a is None:
                return self.new_list([]) if n != 'tuple' else ()
            if n == 'sorted':
                return self.b_sorted(a, kw)
            it = self.iter_items(a)
            if type(it) is list and all(p is TRUE for p, _ in it):
                q = [x for _, x in it]
                if n == 'reversed':
                    q = q[::-1]
                return tuple(q) if n == 'tuple' else self.new_list(q)
            if type(it) is list:
                return ('__items__', it[::-1] if n == 'reversed' else it)
            if type(it) is SymSeq:
                if n == 'reversed':
                    return SymSeq(it.count, lambda i: it.elem(ir.sub(ir.sub(it.count, ONE), i)))
                L = raw('li', 'ls%d' % ir.fresh())
                return self.alloc(Obj('list', {'items': (), 'count': it.count, 'li': L, 'vals': (it.elem(L),)}, 'sym'))
            return unk('list', self.freeze(a))
        if n == 'dict':
            r = self.new_dict()
            if a is not None:
                self.dict_update(r, a)
            for k, v in kw.items():
                self.set_item(r, string(k), v)
            return r
        if n == 'sum':
            if self.is_arr(a):
                return self.reduce_sum(a, ZERO)
            q = self.iter_items(a)
            if type(q) is list and all(p is TRUE for p, _ in q):
                r = args[1] if len(args) > 1 else ZERO
                for _, x in q:
                    r = self.binop('Add', r, x)
                return r
            if type(q) is SymSeq:
                L = raw('li', 'sm%d' % ir.fresh())
                e = q.elem(L)
                if type(e) is Node:
                    return mk_sum(L, q.count, e)
            return unk('sum', self.freeze(a))
        if n == 'abs':
            return self.num_op(lambda x: func('abs', x), a)
        if n in ('max', 'min'):
            if len(args) == 1:
                if self.is_arr(a):
                    return self.np_call('numpy.' + n, [a], {})
                q = self.to_seq(a)
                if q is None:
                    return unk(n, self.freeze(a))
            else:
                q = list(args)
            if 'key' in kw or 'default' in kw:
                return unk(n, *[self.freeze(x) for x in q])
            if not q:
                self.implicit('ValueError')
            r = q[0]
            for x in q[1:]:
                r = self.num_op(mkmax if n == 'max' else (lambda p, s: ir.neg(mkmax(ir.neg(p), ir.neg(s)))), r, x)
            return r
        if n == 'round':
            return self.num_op(lambda x: raw('f:round', x, self.freeze(args[1]) if len(args) > 1 else ZERO), a)
        if n in ('float', 'int'):
            if a is None:
                return ZERO
            if type(a) is Node:
                if a.op == 's':
                    try:
                        return num(Fraction(a.args[0].strip()) if n == 'float' else int(a.args[0]))
                    except (ValueError, ZeroDivisionError):
                        self.implicit('ValueError')
                if a.op == 'none':
                    self.implicit('TypeError')
                if a.op == 'ite' and ir.kind_of(a) == 'str':
                    try:
                        return over_strings(lambda t: num(Fraction(t.strip()) if n == 'float' else int(t)), a)
                    except (ValueError, ZeroDivisionError):
                        pass
                if ir.kind_of(a) == 'str':
                    return raw('f:tofloat' if n == 'float' else 'f:toint', a)
                if n == 'float':
                    return a
                if int_of(a) is not None:
                    return a
                if ir.kind_of(a) == 'num' and self.is_intlike(a):
                    return a
                if a.op == 'n':
                    return num(int(a.args[0]))
                return raw('f:toint', a)
            if self.is_arr(a):
                sh, b = self.arr(a)
                return subst(b, {iv(k): ZERO for k in range(len(sh))})
            return unk(n, self.freeze(a))
        if n == 'str':
            if a is None:
                return string('')
            if type(a) is Node and a.op == 's':
                return a
            if type(a) is Node and ir.kind_of(a) == 'str':
                return a
            return raw('f:strfmt', string(''), self.freeze(a))
        if n == 'bool':
            return self.truth(a) if a is not None else FALSE
        if n in ('any', 'all'):
            if self.is_arr(a):
                return self.np_call('numpy.' + n, [a], {})
            q = self.to_seq(a)
            if q is None:
                return unk(n, self.freeze(a))
            r = FALSE if n == 'any' else TRUE
            for x in q:
                r = or_(r, self.truth(x)) if n == 'any' else and_(r, self.truth(x))
            return r
        if n == 'isinstance' or n == 'issubclass':
            return self.b_isinstance(a, args[1])
        if n == 'hasattr':
            nm = args[1].args[0] if type(args[1]) is Node and args[1].op == 's' else None
            return self.b_hasattr(a, nm)
        if n == 'getattr':
            if type(args[1]) is Node and args[1].op == 's':
                nm = args[1].args[0]
                if len(args) > 2:
                    h = self.b_hasattr(a, nm)
                    return self.branch(h, lambda: self.get_attr(a, nm), lambda: args[2])
                return self.get_attr(a, nm)
            return unk('getattr')
        if n == 'setattr':
            if type(args[1]) is Node and args[1].op == 's':
                return self.set_attr(a, args[1].args[0], args[2])
            return NONE
        if n == 'open':
            return self.file_open(args, kw)
        if n in ('map', 'filter'):
            q = self.to_seq(args[1])
            if q is not None and len(args) == 2:
                if n == 'map':
                    return self.new_list([self.call(a, [x], {}) for x in q])
            elif q is not None and n == 'map':
                qs = [self.to_seq(x) for x in args[1:]]
                if all(x is not None for x in qs):
                    return self.new_list([self.call(a, list(t), {}) for t in zip(*qs)])
            return unk(n)
        if n == 'type':
            if type(a) is Ref and self.obj(a).kind == 'inst':
                return self.obj(a).x
            return Ext('builtins.type_of')
        if n == 'next':
            q = self.to_seq(a)
            if q:
                return q[0]
            if q == [] and len(args) > 1:
                return args[1]
            if q == []:
                self.implicit('StopIteration')
            return unk('next')
        if n == 'object':
            return self.alloc(Obj('inst', {}, 'object'))
        if n == 'slice':
            q = list(args)
            if len(q) == 1:
                return SliceV(NONE, q[0], NONE)
            return SliceV(q[0], q[1], q[2] if len(q) > 2 else NONE)
        if n == 'pow':
            return self.binop('Pow', args[0], args[1])
        if n == 'callable':
            return raw('b', isinstance(a, (Func, Bound, ClassV, Ext)))
        if n == 'vars':
            return self.get_attr(a, '__dict__')
        if n in ('repr', 'format', 'id', 'hash'):
            return raw('f:strfmt', string(n), *[self.freeze(x) for x in args])
        if n in ('property', 'staticmethod', 'classmethod') and type(a) is Func:
            return Func(a.node, a.mod, a.closure, a.defaults, a.kwdefaults, a.name, a.cls, n)
        if n in ir_exc():
            return ExcV(n, tuple(x for x in args if type(x) is Node))
        return unk('builtin:' + n, *[self.freeze(x) for x in args])

    def is_intlike(self, a):
        if a.op == 'atom' and a.args[0].startswith('int'):
            return True
        if a.op == 'n':
            return a.args[0].denominator == 1
        if a.op in ('add', 'mul', 'neg'):
            return all(self.is_intlike(x) for x in a.args)
        return False

    def b_len(self, a):
        if type(a) is tuple:
            return num(len(a))
        if type(a) is Node:
            if a.op == 's':
                return num(len(a.args[0]))
            if ir.kind_of(a) == 'str':
                try:
                    return over_strings(lambda t: num(len(t)), a)
                except ValueError:
                    pass
                return raw('f:len', a)
            if a.op in ('none', 'n'):
                self.implicit('TypeError')
            return raw('f:len', a)
        if type(a) is Ref:
            o = self.obj(a)
            if o.kind == 'list':
                if o.x is None:
                    return num(len(o.f['items']))
                if o.x == 'sym':
                    return o.f['count']
                if o.x == 'phi':
                    c, x, y = o.f['phi']
                    if x.x is None and y.x is None:
                        return ite(c, num(len(x.f['items'])), num(len(y.f['items'])))
                return unk('len', a.oid)
            if o.kind == 'dict':
                r = ZERO
                for k, (p, v) in o.f.items():
                    r = ir.add(r, ite(p, ONE, ZERO))
                return r
            if o.kind in ('arr', 'view'):
                sh, _ = self.arr(a)
                if not sh:
                    self.implicit('TypeError')
                return sh[0]
            if o.kind == 'inst':
                m = self.find_method(a, '__len__')
                if m is not None:
                    return self.call(m, [], {})
        if type(a) is WhereIdx:
            return a.count()
        if type(a) is SymSeq:
            return a.count
        return unk('len', self.freeze(a))

    def b_sorted(self, a, kw):
        q = self.to_seq(a)
        if q is None:
            return unk('sorted', self.freeze(a))
        if len(q) <= 1:
            return self.new_list(q)
        keys = []
        for x in q:
            if 'key' in kw:
                k = self.call(kw['key'], [x], {})
            else:
                k = x
            if type(k) is tuple:
                k = k[0]
            keys.append(k)
        texts = [type(k) is Node and k.op == 's' for k in keys]
        if any(texts) and any(type(k) is Node and k.op in ('n', 'get', 'add', 'mul', 'neg', 'div') for k in keys):
            self.implicit('TypeError', string('texts and numbers are not ordered'))
        if all(type(k) is Node and k.op in ('n', 's') for k in keys):
            order = sorted(range(len(q)), key=lambda i: keys[i].args[0])
            return self.new_list([q[i] for i in order])
        # insertion network with symbolic comparisons (n <= 3)
        if len(q) <= 3 and all(type(k) is Node for k in keys):
            items = list(zip(keys, q))
            for i in range(len(items)):
                for j in range(len(items) - 1 - i):
                    (k1, x1), (k2, x2) = items[j], items[j + 1]
                    c = self.st.decide(ir.lt(k2, k1))
                    items[j] = (ite(c, k2, k1), self.mval(c, x2, x1))
                    items[j + 1] = (ite(c, k1, k2), self.mval(c, x1, x2))
            return self.new_list([x for _, x in items])
        return unk('sorted', *[self.freeze(x) for x in q])

    def b_isinstance(self, a, t):
        if type(t) is tuple:
            r = FALSE
            for x in t:
                r = or_(r, self.b_isinstance(a, x))
            return r
        if type(t) is ClassV:
            if type(a) is Ref and self.obj(a).kind == 'inst' and type(self.obj(a).x) is ClassV:
                c = self.obj(a).x
                return raw('b', c is t or t in self.mro(c))
            return FALSE
        if type(t) is Ext:
            n = t.path.split('.')[-1]
            if type(a) is Node:
                k = ir.kind_of(a)
                if a.op == 'none':
                    return FALSE
                if n == 'str':
                    if k in ('str', 'num'):
                        return raw('b', k == 'str')
                elif n in ('float', 'Number', 'Real', 'floating'):
                    if k in ('str', 'num'):
                        return raw('b', k == 'num')
                elif n in ('int', 'integer', 'Integral'):
                    if k == 'str':
                        return FALSE
                    if a.op == 'n':
                        return raw('b', a.args[0].denominator == 1)
                elif n == 'bool':
                    return raw('b', a.op == 'b')
                elif n in ('dict', 'list', 'tuple', 'ndarray', 'set', 'Mapping', 'Sequence', 'Iterable', 'OrderedDict'):
                    if k in ('str', 'num') or a.op in ('n', 's'):
                        return FALSE
                return unk('isinstance', a, n)
            if type(a) is tuple:
                return raw('b', n in ('tuple', 'Sequence', 'Iterable'))
            if type(a) is Ref:
                k = self.obj(a).kind
                return raw('b', (k == 'dict' and n in ('dict', 'OrderedDict', 'Mapping', 'MutableMapping')) or (k == 'list' and n in ('list', 'Sequence', 'Iterable')) or
                           (k in ('arr', 'view') and n == 'ndarray'))
        return unk('isinstance', self.freeze(a))

    def b_hasattr(self, a, nm):
        if nm is None:
            return unk('hasattr')
        if type(a) is Ref:
            o = self.obj(a)
            if o.kind == 'inst':
                if nm in o.f:
                    v = o.f[nm]
                    if type(v) is Phi and (v.a is UNDEF or v.b is UNDEF):
                        return not_(v.c) if v.a is UNDEF else v.c
                    return raw('b', v is not UNDEF)
                return raw('b', type(o.x) is ClassV and self.find_in_class(o.x, nm) is not None)
            if o.kind in ('arr', 'view'):
                return raw('b', nm in ('shape', 'size', 'dtype', '__len__', '__iter__', 'copy', 'T', '__getitem__'))
            if o.kind == 'dict':
                return raw('b', nm in ('items', 'keys', 'get', 'copy', '__len__', '__iter__', '__getitem__'))
            if o.kind == 'list':
                return raw('b', nm in ('append', '__len__', '__iter__', '__getitem__', 'copy'))
        if type(a) is tuple:
            return raw('b', nm in ('__len__', '__iter__', '__getitem__'))
        if type(a) is Node:
            k = ir.kind_of(a)
            if k == 'num' or a.op == 'none':
                return FALSE
            if k == 'str':
                return raw('b', nm in ('__len__', '__iter__', '__getitem__', 'format', 'lower'))
        return unk('hasattr')

    # ------------------------------------------------------ methods of builtins
    def builtin_method(self, v, name, args, kw):
        if type(v) is Phi:
            return self.branch(v.c, lambda: self.builtin_method(v.a, name, args, kw), lambda: self.builtin_method(v.b, name, args, kw))
        if type(v) is Ref:
            o = self.obj(v)
            if o.kind == 'dict':
                return self.dict_method(v, o, name, args, kw)
            if o.kind == 'list':
                return self.list_method(v, o, name, args, kw)
            if o.kind in ('arr', 'view'):
                return self.arr_method(v, name, args, kw)
            if o.kind == 'file':
                return self.file_method(v, o, name, args, kw)
            if o.kind == 'ext':
                return self.ext_method(v, o, name, args, kw)
            return unk('method:' + name)
        if type(v) is tuple:
            if name == 'index':
                for i, x in enumerate(v):
                    if same(x, args[0]):
                        return num(i)
            if name == 'count':
                return num(sum(1 for x in v if same(x, args[0])))
            return unk('tuple.' + name)
        if type(v) is Node:
            if ir.kind_of(v) == 'str':
                return self.str_method(v, name, args, kw)
            if name in ('item', 'copy', 'astype', 'sum', 'max', 'min', 'mean', 'flatten', 'ravel', 'squeeze'):
                return v
            if name in ('any', 'all'):
                return truth(v)
            if name == 'tolist':
                return v
            if name == 'round':
                return raw('f:round', v, self.freeze(args[0]) if args else ZERO)
            if name == 'dot':
                return self.num_op(ir.mul, v, args[0])
            return unk('method:' + name, v, *[self.freeze(a) for a in args])
        return unk('method:' + name, ir.fresh())

    def dict_method(self, v, o, name, args, kw):
        if name == 'get':
            d = args[1] if len(args) > 1 else kw.get('default', NONE)
            k = args[0]
            if type(k) is Phi:
                return self.branch(k.c, lambda: self.dict_method(v, o, name, [k.a] + list(args[1:]), kw),
                                   lambda: self.dict_method(v, o, name, [k.b] + list(args[1:]), kw))
            return self.dict_get(v, k, d)
        if name in ('items', 'keys', 'values'):
            out = []
            for k, (p, x) in o.f.items():
                p = self.st.decide(p)
                if p is FALSE:
                    continue
                kk = self.unkey(k)
                out.append((p, kk if name == 'keys' else x if name == 'values' else (kk, x)))
            if all(p is TRUE for p, _ in out):
                return self.new_list([x for _, x in out])
            return ('__items__', out)
        if name == 'copy':
            return self.dict_copy(v)
        if name == 'update':
            if args:
                self.dict_update(v, args[0])
            for k, x in kw.items():
                self.set_item(v, string(k), x)
            return NONE
        if name == 'setdefault':
            d = args[1] if len(args) > 1 else NONE
            k = self.hkey(args[0])
            if k is None:
                return unk('setdefault')
            p, x = o.f.get(k, (FALSE, UNDEF))
            p = self.st.decide(p)
            if p is TRUE:
                return x
            r = d if x is UNDEF else self.mval(p, x, d)
            self.note_write(v)
            self.st.heap.set(v.oid, Obj('dict', dict(o.f) | {k: (TRUE, r)}, o.x))
            return r
        if name == 'pop':
            k = self.hkey(args[0])
            if k is None:
                return unk('pop')
            p, x = o.f.get(k, (FALSE, UNDEF))
            if len(args) > 1:
                r = self.dict_get(v, args[0], args[1])
            else:
                self.maybe_throw(not_(p), 'KeyError')
                r = x
            o = self.obj(v)
            f = dict(o.f)
            f.pop(k, None)
            self.note_write(v)
            self.st.heap.set(v.oid, Obj('dict', f, o.x))
            return r
        if name == 'clear':
            self.note_write(v)
            self.st.heap.set(v.oid, Obj('dict', {}, o.x))
            return NONE
        if name == 'fromkeys':
            r = self.new_dict()
            for k in self.to_seq(args[0]) or []:
                self.set_item(r, k, args[1] if len(args) > 1 else NONE)
            return r
        return unk('dict.' + name)

    def list_method(self, v, o, name, args, kw):
        if name == 'append':
            return self.list_append(v, args[0])
        if name == 'extend':
            return self.list_extend(v, args[0])
        if name == 'copy':
            return self.alloc(o)
        if name == 'pop' and o.x is None:
            i = int_of(args[0]) if args else -1
            its = list(o.f['items'])
            if i is None or not its:
                self.implicit('IndexError')
            x = its.pop(i)
            self.st.heap.set(v.oid, Obj('list', {'items': tuple(its)}))
            return x
        if name == 'insert' and o.x is None and int_of(args[0]) is not None:
            its = list(o.f['items'])
            its.insert(int_of(args[0]), args[1])
            self.st.heap.set(v.oid, Obj('list', {'items': tuple(its)}))
            return NONE
        if name == 'sort':
            r = self.b_sorted(v, kw)
            if type(r) is Ref:
                self.st.heap.set(v.oid, self.obj(r))
            return NONE
        if name == 'reverse' and o.x is None:
            self.st.heap.set(v.oid, Obj('list', {'items': tuple(reversed(o.f['items']))}))
            return NONE
        if name == 'add':
            return self.list_append(v, args[0])
        if name == 'index' and o.x is None:
            for i, x in enumerate(o.f['items']):
                if same(x, args[0]):
                    return num(i)
        if name == 'clear':
            self.st.heap.set(v.oid, Obj('list', {'items': ()}))
            return NONE
        return unk('list.' + name)

    def str_method(self, v, name, args, kw):
        if v.op == 's':
            s = v.args[0]
            if name == 'format':
                return self.str_fmt('format', v, args, kw)
            if all(type(a) is Node and a.op in ('s', 'n') for a in args) or not args:
                py = [a.args[0] if a.op == 's' else int(a.args[0]) for a in args]
                if name in ('lower', 'upper', 'strip', 'title', 'rstrip', 'lstrip', 'replace', 'capitalize', 'ljust', 'rjust'):
                    return string(getattr(s, name)(*py))
                if name in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isnumeric'):
                    return raw('b', getattr(s, name)(*py))
                if name in ('split', 'splitlines'):
                    return self.new_list([string(x) for x in getattr(s, name)(*py)])
                if name in ('find', 'count', 'index'):
                    return num(getattr(s, name)(*py))
                if name in ('encode', 'decode'):
                    return v
            if name in ('startswith', 'endswith') and type(args[0]) is tuple and all(x.op == 's' for x in args[0]):
                return raw('b', getattr(s, name)(tuple(x.args[0] for x in args[0])))
            if name == 'join':
                q = self.to_seq(args[0])
                if q is not None and all(type(x) is Node and x.op == 's' for x in q):
                    return string(s.join(x.args[0] for x in q))
                if q is not None and all(type(x) is Node for x in q):
                    r = None
                    from .interp import str_add
                    for x in q:
                        r = x if r is None else str_add(str_add(r, v), x)
                    return r if r is not None else string('')
                return raw('f:strjoin', v, self.freeze(args[0]))
        if name in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isnumeric'):
            return raw('truth', raw('f:' + name, v, *[self.freeze(a) for a in args]))
        if name == 'format':
            return self.str_fmt('format', v, args, kw)
        if name == 'split':
            return unk('split', v)
        return raw('f:str' + name, v, *[self.freeze(a) for a in args])

    def str_fmt(self, how, v, args, kw=None):
        q = []
        for a in args:
            if type(a) is tuple:
                q += [self.freeze(x) for x in a]
            else:
                q.append(self.freeze(a))
        for k in sorted(kw or {}):
            q += [string(k), self.freeze(kw[k])]
        if v.op == 's' and all(x.op == 's' for x in q):
            try:
                if how == 'format':
                    return string(v.args[0].format(*[x.args[0] for x in q]))
                return string(v.args[0] % tuple(x.args[0] for x in q))
            except Exception:
                pass
        return raw('f:strfmt' + how, v, *q)

    # ------------------------------------------------------------ array methods
    def arr_method(self, v, name, args, kw):
        if name in ('copy', 'astype', '__copy__'):
            sh, b = self.arr(v)
            rec = self.rec_fields(v)
            r = self.new_arr(sh, b, self.dtype_of(v))
            if rec:
                o = self.obj(r)
                self.st.heap.set(r.oid, o.put('fields', dict(rec)))
            return r
        if name in ('flatten', 'ravel'):
            sh, b = self.arr(v)
            if len(sh) <= 1:
                return self.new_arr(sh, b) if name == 'flatten' else v
            if len(sh) == 2:
                k1 = int_of(sh[1])
                if k1 == 1:
                    return self.new_arr((sh[0],), subst(b, {iv(1): ZERO}))
                if int_of(sh[0]) == 1:
                    return self.new_arr((sh[1],), subst(subst(b, {iv(0): ZERO}), {iv(1): iv(0)}))
                return self.new_arr((ir.mul(*sh),), raw('get', close_arr(sh, b), raw('f:floordiv', iv(0), sh[1]), raw('f:mod', iv(0), sh[1])))
            return unk('flatten', b)
        if name in ('sum', 'mean', 'max', 'min', 'any', 'all', 'dot', 'diagonal', 'trace', 'transpose', 'reshape',
                    'prod', 'std', 'var', 'cumsum', 'argmax', 'argmin', 'nonzero', 'squeeze', 'clip', 'round', 'take', 'repeat', 'argsort'):
            if name == 'dot':
                return self.np_call('numpy.dot', [v] + list(args), kw)
            if name == 'transpose' and args:
                ax = args[0] if type(args[0]) is tuple else args
                return self.transpose(v, [int_of(x) for x in ax])
            if name == 'reshape' and len(args) > 1:
                return self.np_call('numpy.reshape', [v, tuple(args)], kw)
            return self.np_call('numpy.' + name, [v] + list(args), kw)
        if name == 'fill':
            sh, b = self.arr(v)
            s2, b2 = self.arr(args[0])
            self.write_arr(v, s2, b2)
            return NONE
        if name == 'tolist':
            sh, b = self.arr(v)
            q = self.to_seq(v)
            if q is not None:
                return self.new_list(q)
            return self.new_arr(sh, b)
        if name == 'item':
            sh, b = self.arr(v)
            return subst(b, {iv(k): ZERO for k in range(len(sh))})
        if name == 'sort':
            sh, b = self.arr(v)
            self.write_arr(v, sh, unk('sort', b))
            return NONE
        if name == 'setflags':
            return NONE
        if name == 'view':
            return v
        if name in ('get', 'keys', 'items', 'append', 'split', 'lower'):
            self.implicit('AttributeError', string(name))
        return unk('arr.' + name, self.freeze(v))

    def dtype_of(self, v):
        if type(v) is Ref:
            o = self.obj(v)
            if o.kind == 'view':
                o = self.obj(Ref(o.f['base']))
            return o.f.get('dtype', 'f')
        return 'f'

    # record arrays: fields are ordinary arrays kept in `fields`
    def rec_fields(self, v):
        o = self.obj(v)
        if o.kind == 'arr':
            return o.f.get('fields')
        return None

    def rec_get(self, v, name):
        o = self.obj(v)
        if o.kind == 'view':
            base = self.rec_get(Ref(o.f['base']), name)
            if type(base) is Ref:
                return self.make_view(base, o.f['specs'], o.f['shape'])
            return base
        f = o.f.get('fields') or {}
        if name in f:
            return f[name]
        if o.f.get('fields') is not None:
            self.implicit('ValueError', string('no field ' + name))
        return unk('field', name)

    def rec_set(self, v, name, x):
        o = self.obj(v)
        if o.kind == 'arr' and o.f.get('fields') is not None:
            if name not in o.f['fields']:
                self.implicit('ValueError', string('no field ' + name))
            cur = o.f['fields'][name]
            self.setitem_arr(cur, SliceV(NONE, NONE, NONE), x)

    # ------------------------------------------------------------------- numpy
    def np_call(self, path, args, kw):
        n = path[6:]
        if n.startswith('linalg.'):
            return self.np_linalg(n[7:], args, kw)
        for i, a in enumerate(args):
            if type(a) is Phi:
                try:
                    self.arr(a)
                except NotArr:
                    return self.branch(a.c, lambda: self.np_call(path, list(args[:i]) + [a.a] + list(args[i + 1:]), kw),
                                       lambda: self.np_call(path, list(args[:i]) + [a.b] + list(args[i + 1:]), kw))
        try:
            r = self.np_call1(n, args, kw)
            out = kw.get('out')
            if out is not None and type(out) is Ref and type(r) is not tuple:
                sh, b = self.arr(r)
                self.write_arr(out, sh, b)
                return out
            return r
        except NotArr:
            return unk('numpy.' + n, *[self.freeze(a) for a in args])
        except (IndexError, KeyError, TypeError, AttributeError) as e:
            if os.environ.get('SA_DEBUG'):
                raise
            return unk('numpy.' + n, *[self.freeze(a) for a in args])

    def shape_arg(self, s):
        if type(s) is Node:
            return (s,)
        if type(s) is tuple:
            return tuple(s)
        q = self.to_seq(s)
        return tuple(q)

    def np_call1(self, n, args, kw):
        if n in UFUNC1:
            return self.num_op(ufunc1(n), args[0], **({'dtype': 'b'} if n.startswith('is') else {}))
        if n in UFUNC2:
            return self.num_op(UFUNC2[n], args[0], args[1])
        if n in CMP2:
            return self.num_op(CMP2[n], args[0], args[1], dtype='b')
        if n in ('logical_not', 'invert'):
            return self.num_op(lambda a: not_(truth(a)), args[0], dtype='b')
        if n in ('zeros', 'ones', 'empty', 'full'):
            sh = self.shape_arg(args[0] if args else kw['shape'])
            dt = kw.get('dtype', args[2] if n == 'full' and len(args) > 2 else args[1] if n != 'full' and len(args) > 1 else None)
            if n == 'full':
                fs, b = self.arr(args[1])
                b = subst(b, {iv(k): iv(k + len(sh) - len(fs)) for k in range(len(fs))})
            else:
                b = {'zeros': ZERO, 'ones': ONE, 'empty': ir.UNINIT}[n]
            d = 'f'
            if type(dt) is Ext and dt.path.endswith(('.bool', '.bool_')):
                d = 'b'
                b = truth(b) if b is not ir.UNINIT else b
            fields = self.dtype_fields(dt)
            r = self.new_arr(sh, b, d)
            if fields:
                ff = {k: self.new_arr(sh, string('') if t.startswith(('U', 'S')) else ZERO) for k, t in fields}
                self.st.heap.set(r.oid, self.obj(r).put('fields', ff))
            return r
        if n in ('zeros_like', 'ones_like', 'empty_like', 'full_like'):
            sh, b0 = self.arr(args[0])
            if n == 'full_like':
                fs, b = self.arr(args[1])
                b = subst(b, {iv(k): iv(k + len(sh) - len(fs)) for k in range(len(fs))})
            else:
                b = {'zeros_like': ZERO, 'ones_like': ONE, 'empty_like': ir.UNINIT}[n]
            if not sh:
                return b
            return self.new_arr(sh, b, self.dtype_of(args[0]) if n == 'empty_like' else 'f')
        if n in ('array', 'asarray', 'copy', 'ascontiguousarray', 'asfarray', 'atleast_1d', 'float64', 'asanyarray'):
            a = args[0]
            if n in ('asarray', 'asanyarray', 'ascontiguousarray') and self.is_arr(a):
                return a
            if n == 'float64' and type(a) is Node:
                return a
            if type(a) is Node and n in ('array', 'asarray', 'copy'):
                if a.op in ('unk',):
                    return a
                return self.new_arr((), a)
            sh, b = self.arr(a)
            if n == 'atleast_1d':
                if self.is_arr(a) and sh:
                    return a
                if not sh:
                    sh = (ONE,)
            dt = self.dtype_of(a)
            return self.new_arr(sh, b, dt)
        if n == 'arange':
            st, en, sp = (ZERO, args[0], ONE) if len(args) == 1 else (args[0], args[1], args[2] if len(args) > 2 else ONE)
            if all(type(x) is Node and x.op == 'n' for x in (st, en, sp)):
                import math
                c = max(0, math.ceil((en.args[0] - st.args[0]) / sp.args[0]))
                cnt = num(c)
            elif sp is ONE:
                cnt = ir.sub(en, st)
            else:
                cnt = raw('f:ceildiv', ir.sub(en, st), sp)
            return self.new_arr((cnt,), ir.add(st, ir.mul(sp, iv(0))))
        if n == 'linspace':
            cnt = args[2] if len(args) > 2 else kw.get('num', num(50))
            a, b = args[0], args[1]
            if type(a) is not Node or type(b) is not Node:
                return unk('linspace')
            ep = kw.get('endpoint', args[3] if len(args) > 3 else TRUE)
            den = ir.sub(cnt, ONE) if ep is not FALSE else cnt
            return self.new_arr((cnt,), ir.add(a, ir.mul(ir.sub(b, a), ir.div(iv(0), den))))
        if n == 'identity' or n == 'eye':
            return self.new_arr((args[0], args[0]), ite(ir.eq(iv(0), iv(1)), ONE, ZERO))
        if n == 'sum':
            ax = kw.get('axis', args[1] if len(args) > 1 else None)
            if ax is NONE:
                ax = None
            r = self.reduce_sum(args[0], ax)
            if kw.get('keepdims') is TRUE:
                return unk('keepdims')
            return r
        if n in ('mean', 'average'):
            ax = kw.get('axis', args[1] if len(args) > 1 else None)
            if ax is NONE:
                ax = None
            sh, _ = self.arr(args[0])
            if 'weights' in kw:
                return unk('average')
            s = self.reduce_sum(args[0], ax)
            if ax is None:
                c = ONE
                for d in sh:
                    c = ir.mul(c, d)
            else:
                c = sh[int_of(ax)]
            return self.num_op(ir.div, s, c)
        if n in ('max', 'min', 'amax', 'amin', 'nanmax', 'nanmin', 'prod', 'std', 'var', 'argmax', 'argmin', 'median', 'ptp', 'cumsum', 'cumprod', 'argsort', 'sort', 'diff', 'unique', 'gradient', 'count_nonzero', 'nansum'):
            nm = {'amax': 'max', 'amin': 'min'}.get(n, n)
            ax = kw.get('axis', args[1] if len(args) > 1 else NONE)
            sh, b = self.arr(args[0])
            if nm in ('max', 'min') and all(int_of(d) is not None and int_of(d) <= SMALL for d in sh) and len(sh) == 1:
                q = self.to_seq(args[0])
                r = q[0]
                for x in q[1:]:
                    r = mkmax(r, x) if nm == 'max' else ir.neg(mkmax(ir.neg(r), ir.neg(x)))
                return r
            if nm == 'min' and ax is NONE:
                return ir.neg(raw('f:red_max', close_arr(sh, lift(ir.neg, b))))
            if nm in ('cumsum', 'cumprod', 'argsort', 'sort') and len(sh) == 1:
                return self.new_arr(sh, raw('get', raw('f:red_' + nm, close_arr(sh, b)), iv(0)))
            if nm == 'diff' and len(sh) == 1:
                return self.new_arr((ir.sub(sh[0], ONE),), ir.sub(subst(b, {iv(0): ir.add(iv(0), ONE)}), b))
            if nm == 'unique':
                return unk('unique', close_arr(sh, b))
            if nm in ('argmax', 'argmin') or ax is NONE:
                if len(sh) > 1 and ax is not NONE:
                    return unk(nm)
                return raw('f:red_' + nm, close_arr(sh, b))
            return unk('red', close_arr(sh, b))
        if n in ('any', 'all'):
            if 'axis' in kw:
                return unk(n)
            if type(args[0]) is Node:
                return truth(args[0])
            sh, b = self.arr(args[0])
            b = lift(truth, b)
            ks = [int_of(d) for d in sh]
            if all(k is not None and k <= SMALL for k in ks) and len(sh) == 1:
                r = FALSE if n == 'any' else TRUE
                for k in range(ks[0]):
                    x = subst(b, {iv(0): num(k)})
                    r = or_(r, x) if n == 'any' else and_(r, x)
                return r
            if n == 'all':
                return not_(self.mk_any(sh, lift(not_, b)))
            return self.mk_any(sh, b)
        if n in ('cross',):
            return self.np_cross(args[0], args[1])
        if n in ('dot', 'inner', 'matmul', 'vdot', 'tensordot'):
            return self.np_dot(n, args[0], args[1])
        if n == 'outer':
            sa, ba = self.arr(args[0])
            sb, bb = self.arr(args[1])
            return self.new_arr((sa[0], sb[0]), lift(ir.mul, ba, subst(bb, {iv(0): iv(1)})))
        if n == 'einsum':
            return self.np_einsum(args[0], args[1:])
        if n == 'where':
            return self.np_where(args)
        if n in ('nonzero', 'flatnonzero', 'argwhere'):
            if n == 'argwhere':
                return unk('argwhere')
            r = self.np_where([self.num_op(truth, args[0], dtype='b')])
            return r[0] if n == 'flatnonzero' else r
        if n == 'fill_diagonal':
            sh, b = self.arr(args[0])
            vs, vb = self.arr(args[1])
            self.write_arr(args[0], sh, lift(ite, ir.eq(iv(0), iv(1)), vb, b))
            self.on_store(args[0], ('diag',), vs, vb)
            return NONE
        if n == 'diag_indices' or n == 'diag_indices_from':
            return (DiagIdx(), DiagIdx())
        if n in ('diagonal', 'diag'):
            sh, b = self.arr(args[0])
            if len(sh) == 1:
                return self.new_arr((sh[0], sh[0]), lift(ite, ir.eq(iv(0), iv(1)), b, ZERO))
            return self.new_arr((sh[0],), subst(b, {iv(1): iv(0)}))
        if n == 'trace':
            sh, b = self.arr(args[0])
            return sum_axis((sh[0],), subst(b, {iv(1): iv(0)}), 0)
        if n in ('transpose', 'swapaxes'):
            if n == 'swapaxes':
                sh, _ = self.arr(args[0])
                ax = list(range(len(sh)))
                i, j = int_of(args[1]), int_of(args[2])
                ax[i], ax[j] = ax[j], ax[i]
                return self.transpose(args[0], ax)
            ax = args[1] if len(args) > 1 else kw.get('axes')
            return self.transpose(args[0], [int_of(x) for x in self.to_seq(ax)] if ax is not None and ax is not NONE else None)
        if n in ('append',):
            sa, ba = self.arr(args[0])
            sb, bb = self.arr(args[1])
            return self.concat([(sa, ba), (sb if sb else (ONE,), bb)])
        if n in ('concatenate', 'hstack', 'vstack', 'stack', 'column_stack', 'r_'):
            q = self.to_seq(args[0])
            items = [self.arr(x) for x in q]
            ax = kw.get('axis', args[1] if len(args) > 1 else ZERO)
            if n in ('vstack',) and all(len(s) == 1 for s, _ in items):
                return self.new_arr(*self.seq_arr(items))
            if n == 'stack':
                k = int_of(ax)
                sh, b = self.seq_arr(items)
                if k == 0:
                    return self.new_arr(sh, b)
                r = self.new_arr(sh, b)
                if k in (-1, len(sh) - 1):
                    return self.transpose(r, list(range(1, len(sh))) + [0])
                return self.transpose(r, [1, 0] + list(range(2, len(sh))))
            if n == 'column_stack' and all(len(s) == 1 for s, _ in items):
                return self.transpose(self.new_arr(*self.seq_arr(items)))
            if n == 'hstack' and all(len(s) == 2 for s, _ in items):
                return unk('hstack')
            if ax is ZERO:
                return self.concat(items)
            return unk('concat')
        if n in ('delete', 'insert', 'roll', 'flip', 'flipud', 'fliplr', 'tile', 'repeat'):
            sh, b = self.arr(args[0])
            if n == 'flipud' or n == 'flip' and len(sh) == 1:
                return self.new_arr(sh, subst(b, {iv(0): ir.sub(ir.sub(sh[0], ONE), iv(0))}))
            return unk('numpy.' + n, close_arr(sh, b), *[self.freeze(a) for a in args[1:]])
        if n == 'reshape':
            sh, b = self.arr(args[0])
            new = self.shape_arg(args[1])
            if len(new) == 1 and int_of(new[0]) == -1:
                return self.arr_method(args[0], 'ravel', [], {})
            if len(new) == len(sh) and all(lin_same(x, y) for x, y in zip(sh, new)):
                return args[0]
            if len(sh) == 1 and len(new) == 2 and int_of(new[1]) == 1:
                return self.new_arr((sh[0], ONE), b)
            if len(sh) == 1 and len(new) == 2 and int_of(new[0]) == 1:
                return self.new_arr((ONE, sh[0]), subst(b, {iv(0): iv(1)}))
            return unk('reshape', close_arr(sh, b))
        if n in ('squeeze',):
            sh, b = self.arr(args[0])
            keep = [k for k in range(len(sh)) if int_of(sh[k]) != 1]
            m = {iv(k): ZERO for k in range(len(sh)) if k not in keep}
            for j, k in enumerate(keep):
                m[iv(k)] = raw('tv', 'q%d' % j)
            b = subst(b, m)
            b = subst(b, {raw('tv', 'q%d' % j): iv(j) for j in range(len(keep))})
            if not keep:
                return b
            return self.new_arr(tuple(sh[k] for k in keep), b)
        if n == 'expand_dims':
            ax = int_of(args[1])
            sh, b = self.arr(args[0])
            key = [SliceV(NONE, NONE, NONE)] * len(sh)
            key.insert(ax if ax >= 0 else len(sh) + 1 + ax, NONE)
            return self.getitem_arr(args[0], tuple(key))
        if n == 'broadcast_to':
            sh = self.shape_arg(args[1])
            s, b = self.arr(args[0])
            sh2, (b2, _) = bcast([(s, b), (sh, ZERO)])
            return self.new_arr(sh2, b2)
        if n == 'clip':
            return self.num_op(lambda x, lo, hi: ir.neg(mkmax(ir.neg(mkmax(x, lo)), ir.neg(hi))), args[0], args[1], args[2])
        if n == 'interp':
            sx, bx = self.arr(args[1])
            sy, by = self.arr(args[2])
            if len(sx) != 1 or len(sy) != 1:
                return unk('interp')
            l = kw.get('left', args[3] if len(args) > 3 else NONE)
            r = kw.get('right', args[4] if len(args) > 4 else NONE)
            l = ir.subst(by, {iv(0): ZERO}) if l is NONE else l
            r = ir.subst(by, {iv(0): ir.sub(sy[0], ONE)}) if r is NONE else r
            return self.num_op(lambda x: self.interpolate('interpw', x, sx, bx, sy, by, l, r), args[0])
        if n == 'trapz' or n == 'trapezoid':
            sy, by = self.arr(args[0])
            x = args[1] if len(args) > 1 else kw.get('x')
            if x is None or len(sy) != 1:
                return unk('trapz')
            sx, bx = self.arr(x)
            return self.quadrature('trapz', sy, by, sx, bx)
        if n in ('round', 'around', 'round_'):
            return self.num_op(lambda x: raw('f:round', x, self.freeze(args[1]) if len(args) > 1 else ZERO), args[0])
        if n == 'isclose' or n == 'allclose' or n == 'array_equal':
            return unk(n, *[self.freeze(a) for a in args])
        if n == 'isscalar':
            return raw('b', type(args[0]) is Node)
        if n == 'ndim':
            return num(len(self.arr(args[0])[0]))
        if n == 'shape':
            return tuple(self.arr(args[0])[0])
        if n == 'size':
            return self.arr_attr(args[0], 'size') if self.is_arr(args[0]) else ONE
        if n in ('errstate',):
            return self.alloc(Obj('ext', {}, 'errstate'))
        if n in ('seterr', 'set_printoptions'):
            return NONE
        if n == 'savetxt':
            return self.file_savetxt(args, kw)
        if n in ('save', 'savez'):
            self.fs_set(args[0], raw('npsave', self.freeze(args[1])))
            return NONE
        if n == 'loadtxt' or n == 'genfromtxt':
            p = self.freeze(args[0])
            rows = raw('f:fsrows', p)
            return self.new_arr((rows, num(2)), raw('get', raw('fsdata', p), iv(0), iv(1)))
        if n in ('dtype',):
            return args[0]
        if n.startswith('random.'):
            return raw('atom', 'nondet:' + n + str(ir.fresh()), 'num')
        if n == 'copyto':
            sh, b = self.arr(args[1])
            self.write_arr(args[0], sh, b)
            return NONE
        if n in ('float64', 'float32', 'int64', 'int32', 'bool_', 'str_'):
            return args[0]
        if n == 'select' or n == 'piecewise' or n == 'vectorize' or n == 'meshgrid' or n == 'apply_along_axis' or n == 'indices':
            return unk('numpy.' + n, *[self.freeze(a) for a in args])
        if n == 'polyfit' or n == 'polyval':
            return unk('numpy.' + n, *[self.freeze(a) for a in args])
        if n == 'ix_':
            return unk('ix')
        if n == 'nan_to_num':
            return unk('nan_to_num', self.freeze(args[0]))
        if n.endswith('.T'):
            return unk('T')
        return unk('numpy.' + n, *[self.freeze(a) for a in args])

    def dtype_fields(self, dt):
        if type(dt) is Ref and self.obj(dt).kind == 'list':
            q = self.to_seq(dt)
            out = []
            for x in q or []:
                t = self.to_seq(x)
                if not t or t[0].op != 's':
                    return None
                out.append((t[0].args[0], t[1].args[0] if type(t[1]) is Node and t[1].op == 's' else 'float'))
            return out
        return None

    def mk_any(self, sh, b):
        if b.op == 'b':
            return b
        return raw('any', close_arr(sh, b))

    def concat(self, items):
        sh0, b0 = items[0]
        dim = sh0[0]
        body = b0
        for sh, b in items[1:]:
            nd = sh[0]
            k = int_of(dim)
            off = dim
            b2 = subst(b, {iv(0): ir.sub(iv(0), off)})
            body = lift(ite, ir.lt(iv(0), off), body, b2)
            dim = ir.add(dim, nd)
        return self.new_arr((dim,) + tuple(sh0[1:]), body)

    def np_cross(self, a, b):
        sa, ba = self.arr(a)
        sb, bb = self.arr(b)
        sh, (x, y) = bcast([(sa, ba), (sb, bb)])
        k = len(sh) - 1

        def comp(z, c):
            return subst(z, {iv(k): num(c)})
        if int_of(sh[k]) != 3:
            return unk('cross')
        out = []
        for c in range(3):
            i, j = (c + 1) % 3, (c + 2) % 3
            out.append(lift(lambda p, q, r, s: ir.sub(ir.mul(p, q), ir.mul(r, s)), comp(x, i), comp(y, j), comp(x, j), comp(y, i)))
        return self.new_arr(sh, ir.pick(iv(k), *out))

    def np_dot(self, n, a, b):
        sa, ba = self.arr(a)
        sb, bb = self.arr(b)
        if not sa or not sb:
            return self.num_op(ir.mul, a, b)
        ra, rb = len(sa), len(sb)
        con_b = rb - 1 if (n == 'inner' or rb == 1) else rb - 2
        if n == 'vdot' and (ra > 1 or rb > 1):
            return unk('vdot')
        if n == 'tensordot':
            return unk('tensordot')
        if n == 'matmul' and ra > 2 or n == 'matmul' and rb > 2:
            return unk('matmul')
        # result axes: a[:-1] then b without con_b ; contracted axis last
        outa = ra - 1
        x = subst(ba, {iv(ra - 1): raw('tv', 'c')})
        rest = [k for k in range(rb) if k != con_b]
        m = {iv(con_b): raw('tv', 'c')}
        for j, k in enumerate(rest):
            m[iv(k)] = raw('tv', 'd%d' % j)
        y = subst(bb, m)
        y = subst(y, {raw('tv', 'd%d' % j): iv(outa + j) for j in range(len(rest))})
        nsh = tuple(sa[:-1]) + tuple(sb[k] for k in rest)
        kax = len(nsh)
        x = subst(x, {raw('tv', 'c'): iv(kax)})
        y = subst(y, {raw('tv', 'c'): iv(kax)})
        d = sa[-1] if int_of(sa[-1]) != 1 else sb[con_b]
        prod = expand(nsh + (d,), lift(ir.mul, x, y))
        body = sum_axis(nsh + (d,), prod, kax)
        if not nsh:
            return body
        return self.new_arr(nsh, body)

    def np_einsum(self, spec, ops):
        if type(spec) is not Node or spec.op != 's':
            return unk('einsum')
        s = spec.args[0].replace(' ', '')
        ins, out = s.split('->')
        ins = ins.split(',')
        if '.' in s:
            return unk('einsum')
        dims = {}
        bodies = []
        letters = []
        for l, o in zip(ins, ops):
            sh, b = self.arr(o)
            for k, c in enumerate(l):
                if c not in dims or int_of(dims[c]) == 1:
                    dims[c] = sh[k]
            bodies.append((l, sh, b))
        order = list(out) + sorted(set(''.join(ins)) - set(out))
        pos = {c: k for k, c in enumerate(order)}
        xs = []
        for l, sh, b in bodies:
            m = {iv(k): raw('tv', 'e' + c) if not (int_of(sh[k]) == 1 and int_of(dims[c]) != 1) else ZERO for k, c in enumerate(l)}
            b = subst(b, m)
            b = subst(b, {raw('tv', 'e' + c): iv(pos[c]) for c in order})
            xs.append(b)
        p = xs[0]
        for x in xs[1:]:
            p = lift(ir.mul, p, x)
        sh = tuple(dims[c] for c in order)
        p = expand(sh, p)
        while len(sh) > len(out):
            p = sum_axis(sh, p, len(sh) - 1)
            sh = sh[:-1]
        if not sh:
            return p
        return self.new_arr(sh, p)

    def np_where(self, args):
        if len(args) == 1:
            sh, b = self.arr(args[0])
            if len(sh) == 0:
                return unk('where0')
            b = lift(truth, b)
            if len(sh) == 1:
                return (WhereIdx(b, sh, 0),)
            return tuple(WhereIdx(b, sh, k) for k in range(len(sh)))
        return self.num_op(lambda c, x, y: ite(truth(c), x, y), *args)

    def np_linalg(self, n, args, kw):
        try:
            if n == 'norm':
                sh, b = self.arr(args[0])
                ax = kw.get('axis', args[2] if len(args) > 2 else NONE)
                if len(args) > 1 and args[1] is not NONE or 'ord' in kw and kw['ord'] is not NONE:
                    return unk('norm')
                sq = self.num_op(lambda x: ir.mul(x, x), args[0])
                s = self.reduce_sum(sq, None if ax is NONE else ax)
                if kw.get('keepdims') is TRUE:
                    s1 = self.num_op(lambda x: func('sqrt', x), s)
                    return self.np_call('numpy.expand_dims', [s1, ax], {})
                return self.num_op(lambda x: func('sqrt', x), s)
            if n == 'solve':
                sa, ba = self.arr(args[0])
                sb, bb = self.arr(args[1])
                A, B = close_arr(sa, ba), close_arr(sb, bb)
                s = raw('f:solve', A, B)
                if len(sb) == 1:
                    return self.new_arr(sb, raw('get', s, iv(0)))
                return self.new_arr(sb, raw('get', s, iv(0), iv(1)))
            if n == 'inv':
                sa, ba = self.arr(args[0])
                k = int_of(sa[0])
                if k == 2:
                    e = [[subst(ba, {iv(0): num(i), iv(1): num(j)}) for j in range(2)] for i in range(2)]
                    det = ir.sub(ir.mul(e[0][0], e[1][1]), ir.mul(e[0][1], e[1][0]))
                    q = ir.pick(iv(0), ir.pick(iv(1), ir.div(e[1][1], det), ir.div(ir.neg(e[0][1]), det)),
                                ir.pick(iv(1), ir.div(ir.neg(e[1][0]), det), ir.div(e[0][0], det)))
                    return self.new_arr(sa, q)
                return self.new_arr(sa, raw('get', raw('f:inv', close_arr(sa, ba)), iv(0), iv(1)))
            if n == 'det':
                return raw('f:det', self.freeze(args[0]))
            if n == 'lstsq':
                return unk('lstsq', *[self.freeze(a) for a in args])
            if n == 'LinAlgError':
                return ExcV('numpy.linalg.LinAlgError')
        except NotArr:
            pass
        return unk('linalg.' + n, *[self.freeze(a) for a in args])

    # ------------------------------------------------------------------- scipy
    def scipy_call(self, path, args, kw):
        n = path.split('.')[-1]
        if n == 'interp1d':
            x, y = args[0], args[1]
            d = {'x': x, 'y': y, 'kind': kw.get('kind', args[2] if len(args) > 2 else string('linear')), 'fill': kw.get('fill_value', NONE),
                 'axis': kw.get('axis', NONE), 'bounds': kw.get('bounds_error', NONE)}
            return self.alloc(Obj('ext', {'p_' + k: v for k, v in d.items()}, 'interp1d'))
        if n in ('simps', 'simpson', 'trapz', 'trapezoid', 'cumtrapz', 'cumulative_trapezoid'):
            y = args[0]
            x = args[1] if len(args) > 1 else kw.get('x')
            if x is None:
                return unk(n)
            try:
                sy, by = self.arr(y)
                sx, bx = self.arr(x)
            except NotArr:
                return unk(n)
            nm = {'simpson': 'simps', 'trapezoid': 'trapz', 'cumulative_trapezoid': 'cumtrapz'}.get(n, n)
            if nm == 'cumtrapz':
                return self.new_arr(sy, raw('get', raw('f:cumtrapz', close_arr(sy, by), close_arr(sx, bx), self.freeze(kw.get('initial', NONE))), iv(0)))
            return self.quadrature(nm, sy, by, sx, bx)
        if n == 'root' or n in ('fsolve', 'newton', 'brentq', 'root_scalar', 'minimize'):
            return self.opt_call(n, args, kw)
        if n == 'ode':
            return self.alloc(Obj('ext', {'p_f': args[0], 'p_t': ZERO, 'p_y': NONE, 'p_par': ()}, 'ode'))
        if path.startswith('stl.') and n == 'Mesh':
            data = args[0]
            cnt = ZERO
            if self.is_arr(data):
                cnt = self.arr(data)[0][0]
            vec = self.new_arr((cnt, num(3), num(3)), ZERO)
            return self.alloc(Obj('ext', {'vectors': vec, 'p_count': cnt}, 'mesh'))
        return unk('call:' + path, *[self.freeze(a) for a in args])

    def quadrature(self, nm, sy, by, sx, bx):
        """linear functionals of the integrand; the weights depend on the nodes"""
        if len(sy) != 1 or len(sx) != 1:
            return raw('f:' + nm, close_arr(sy, by), close_arr(sx, bx))
        k = raw('li', 'quad%d' % ir.fresh())

        def at(b, i):
            return ir.subst(b, {iv(0): i})
        if nm == 'trapz':
            k1 = ir.add(k, ONE)
            body = ir.mul(ir.div(ir.sub(at(bx, k1), at(bx, k)), num(2)), ir.add(at(by, k), at(by, k1)))
            return mk_sum(k, ir.sub(sy[0], ONE), body)
        w = raw('get', raw('f:%sw' % nm, close_arr(sx, bx)), k)
        return mk_sum(k, sy[0], ir.mul(w, at(by, k)))

    def interpolate(self, tag, x, sx, bx, sy, by, left, right):
        """linear in the ordinates; outside the table the given values"""
        k = raw('li', 'itp%d' % ir.fresh())

        def at(b, i):
            return ir.subst(b, {iv(0): i})
        w = raw('get', raw('f:' + tag, x, close_arr(sx, bx)), k)
        v = mk_sum(k, sy[0], ir.mul(w, at(by, k)))
        if right is not None:
            v = ite(ir.lt(at(bx, ir.sub(sx[0], ONE)), x), right, v)
        if left is not None:
            v = ite(ir.lt(x, at(bx, ZERO)), left, v)
        return v

    def opt_call(self, n, args, kw):
        f, guess = args[0], args[1]
        extra = kw.get('args', args[2] if len(args) > 2 else ())
        if type(extra) is not tuple:
            extra = (extra,)
        k = ir.fresh()
        X = raw('li', 'opt%d' % k)
        try:
            gs, gb = self.arr(guess)
        except NotArr:
            gs, gb = (unk('dim'),), unk('guess')
        nd = gs if gs else (ONE,)
        kk = int_of(nd[0]) or 2
        xv = self.new_arr(nd, ir.pick(iv(0), *[raw('li', 'opt%d.%d' % (k, j)) for j in range(kk)]) if kk > 1 else raw('li', 'opt%d.0' % k))
        from .interp import Dead
        s0 = self.st
        r = None
        try:
            self.st = s0.fork()
            r = self.call(f, [xv] + list(extra), {})
            rn = self.freeze(r)
        except Dead:
            self.st = s0
            rn = unk('root')
        lam = ir.bind('lamv', [raw('li', 'opt%d.%d' % (k, j)) for j in range(kk)], rn)
        node = raw('f:root', lam, close_arr(gs, gb))
        xs = self.new_arr(nd, raw('get', node, iv(0)))
        return self.alloc(Obj('ext', {'x': xs, 'success': raw('truth', raw('f:rootok', node)), 'message': string(''), 'status': raw('f:rootst', node)}, 'rootres'))

    def interp_rows(self, o, sx, bx, sy, by):
        """table whose entries are arrays (axis 0)"""
        kind, fill, axis = o.f['p_kind'], o.f['p_fill'], o.f.get('p_axis', num(-1))
        try:
            st, bt = self.arr(o.f['p_x'])
        except NotArr:
            return None
        if int_of(axis) != 0 or len(st) != 1 or type(kind) is not Node or kind.op != 's':
            return None
        r = len(sx)
        l = h = None
        if type(fill) is tuple and len(fill) == 2:
            ends = []
            for q in fill:
                try:
                    sq, bq = self.arr(q)
                except NotArr:
                    return None
                if len(sq) != len(sy) - 1:
                    return None
                ends.append(ir.subst(bq, {iv(j): iv(r + j) for j in range(len(sq))}))
            l, h = ends
        elif type(fill) is Node and fill.op != 's' and fill is not NONE:
            l = h = fill
        k = raw('li', 'itp%d' % ir.fresh())
        w = raw('get', raw('f:interp1dw.%s' % kind.args[0], bx, close_arr(st, bt)), k)
        # row k of the table, at the entry's own indices
        row = ir.subst(by, dict([(iv(0), k)] + [(iv(j), iv(r + j - 1)) for j in range(1, len(sy))]))
        v = mk_sum(k, sy[0], ir.mul(w, row))
        at = lambda i: ir.subst(bt, {iv(0): i})
        if h is not None:
            v = ite(ir.lt(at(ir.sub(st[0], ONE)), bx), h, v)
        if l is not None:
            v = ite(ir.lt(bx, at(ZERO)), l, v)
        return self.new_arr(tuple(sx) + tuple(sy[1:]), v)

    def ext_obj_call(self, v, o, args, kw):
        if o.x == 'interp1d':
            xs, ys = self.freeze(o.f['p_x']), self.freeze(o.f['p_y'])
            try:
                sy, by = self.arr(o.f['p_y'])
            except NotArr:
                sy = (ONE,)
            extra = [self.freeze(o.f[k]) for k in ('p_kind', 'p_fill')]
            if len(sy) > 1:
                sx, bx = self.arr(args[0])
                r = len(sx)
                v = self.interp_rows(o, sx, bx, sy, by)
                if v is not None:
                    return v
                idx = [iv(r + j) for j in range(len(sy) - 1)]
                return self.new_arr(tuple(sx) + tuple(sy[1:]), raw('get', raw('f:interp1d', bx, xs, ys, *extra), *idx))
            kind, fill = o.f['p_kind'], o.f['p_fill']
            try:
                sx, bx = self.arr(o.f['p_x'])
            except NotArr:
                sx = ()
            if len(sx) != 1 or len(sy) != 1 or type(kind) is not Node or kind.op != 's':
                return self.num_op(lambda x: raw('f:interp1d', x, xs, ys, *extra), args[0])
            l = r = None
            if type(fill) is tuple and len(fill) == 2:
                l, r = fill
            elif type(fill) is Node and fill.op != 's' and fill is not NONE:
                l = r = fill
            return self.num_op(lambda x: self.interpolate('interp1dw.%s' % kind.args[0], x, sx, bx, sy, by, l, r), args[0])
        return unk('extcall', ir.fresh())

    def ext_method(self, v, o, name, args, kw):
        if o.x == 'ode':
            if name == 'set_initial_value':
                self.st.heap.set(v.oid, o.upd(p_y=args[0], p_t=args[1]))
            elif name == 'set_f_params':
                self.st.heap.set(v.oid, o.upd(p_par=tuple(args)))
            elif name == 'integrate':
                f = o.f['p_f']
                from .interp import Dead
                s0 = self.st
                y = self.freeze(o.f['p_y'])
                try:
                    self.st = s0.fork()
                    yv = self.new_arr((ONE,), raw('li', 'odey'))
                    r = self.call(f, [raw('li', 'odet'), yv] + list(o.f['p_par']), {})
                    rn = self.freeze(r)
                except Dead:
                    self.st = s0
                    rn = unk('ode')
                node = raw('f:ode', ir.bind('lamv', [raw('li', 'odet'), raw('li', 'odey')], rn), y, self.freeze(o.f['p_t']), self.freeze(args[0]))
                yn = self.new_arr((ONE,), raw('get', node, iv(0)))
                o = self.obj(v)
                self.st.heap.set(v.oid, o.upd(p_y=yn, y=yn, t=args[0], p_t=args[0]))
                return yn
            elif name == 'successful':
                return raw('truth', raw('f:odeok', self.freeze(o.f['p_y'])))
            return v
        if o.x == 'mesh':
            if name == 'save':
                self.events.append(('mesh.save', self.freeze(args[0]) if args else NONE, ir.LOC[0]))
                vec = self.freeze(o.f['vectors'])
                self.fs_set(args[0], raw('stl', vec))
                return NONE
        return NONE if o.x == 'errstate' else unk('extmethod:' + name, ir.fresh())

    def ext_getitem(self, v, o, key):
        return unk('extitem', ir.fresh())

    def ext_setitem(self, v, o, key, x):
        return NONE

    # -------------------------------------------------------------------- copy
    def copy_value(self, v, deep, depth=0, memo=None):
        if memo is None:
            memo = {}
        if type(v) is Phi:
            return self.mval(v.c, self.copy_value(v.a, deep, depth, memo), self.copy_value(v.b, deep, depth, memo))
        if type(v) is tuple:
            return tuple(self.copy_value(x, deep, depth + 1, memo) if deep else x for x in v)
        if type(v) is not Ref:
            return v
        if v.oid in memo:
            return memo[v.oid]
        o = self.obj(v)
        if o.kind in ('arr', 'view'):
            return self.arr_method(v, 'copy', [], {})
        r = self.alloc(o)
        memo[v.oid] = r
        if deep and depth < 30:
            if o.kind == 'dict':
                f = {k: (p, self.copy_value(x, deep, depth + 1, memo)) for k, (p, x) in o.f.items()}
                self.st.heap.set(r.oid, Obj('dict', f, None))
            elif o.kind == 'list' and o.x is None:
                self.st.heap.set(r.oid, Obj('list', {'items': tuple(self.copy_value(x, deep, depth + 1, memo) for x in o.f['items'])}))
            elif o.kind == 'inst':
                f = {k: self.copy_value(x, deep, depth + 1, memo) for k, x in o.f.items()}
                self.st.heap.set(r.oid, Obj('inst', f, o.x))
        elif o.kind == 'dict':
            self.st.heap.set(r.oid, Obj('dict', dict(o.f), None))
        return r

    # ------------------------------------------------------------------- files
    def fs_get(self, p):
        o = self.st.heap.get(self.fs.oid)
        k = self.freeze(p)
        return self.fs_node(k, o.f.get(k, UNDEF))

    def fs_node(self, k, v):
        if v is UNDEF:
            return raw('f:fscontent', k)
        if type(v) is Phi:
            return ite(v.c, self.fs_node(k, v.a), self.fs_node(k, v.b))
        return v

    def fs_set(self, p, content):
        k = self.freeze(p)
        o = self.st.heap.get(self.fs.oid)
        self.st.heap.set(self.fs.oid, o.put(k, content))
        self.events.append(('fswrite', k, content, ir.LOC[0], tuple(c[1] for c in self.callstack)))

    def file_open(self, args, kw):
        p = args[0] if args else kw.get('file')
        mode = args[1] if len(args) > 1 else kw.get('mode', string('r'))
        m = mode.args[0] if type(mode) is Node and mode.op == 's' else '?'
        k = self.freeze(p)
        if 'w' in m:
            self.fs_set(p, raw('empty'))
        base = raw('empty') if 'w' in m else self.fs_get(p)
        if 'a' in m:
            self.fs_set(p, base)
        ref = self.alloc(Obj('file', {'path': k, 'mode': m, 'open': TRUE, 'buf': raw('empty') if m[0] != 'r' else raw('nobuf'),
                                      'loc': string(str(ir.LOC[0]))}))
        self.events.append(('open', k, m, ir.LOC[0], ref.oid))
        return ref

    def file_write(self, v, item):
        o = self.obj(v)
        b = o.f['buf']
        if b.op == 'nobuf':
            b = raw('empty')
        self.st.heap.set(v.oid, o.upd(buf=raw('cat', b, item)))
        return NONE

    def file_flush(self, v):
        o = self.obj(v)
        b = o.f['buf']
        if b.op not in ('empty', 'nobuf'):
            cur = self.fs_get(o.f['path'])

            def app(c, x):
                if x.op == 'cat':
                    return raw('cat', app(c, x.args[0]), x.args[1])
                if x.op == 'ite':
                    return ite(x.args[0], app(c, x.args[1]), app(c, x.args[2]))
                if x.op == 'empty':
                    return c
                return raw('cat', c, x)
            self.fs_set(o.f['path'], app(cur, b))
            self.st.heap.set(v.oid, self.obj(v).upd(buf=raw('empty')))

    def file_close(self, v):
        self.file_flush(v)
        o = self.obj(v)
        self.st.heap.set(v.oid, o.upd(open=FALSE))
        self.events.append(('close', o.f['path'], ir.LOC[0]))
        return NONE

    def file_method(self, v, o, name, args, kw):
        if name in ('close', '__exit__'):
            return self.file_close(v)
        if name == '__enter__':
            return v
        if name == 'flush':
            self.file_flush(v)
            return NONE
        if name in ('write', 'writelines'):
            t = self.freeze(args[0])
            return self.file_write(v, raw('json', t.args[0]) if t.op == 'f:strjson' else raw('text', t))
        if name in ('read', 'readlines', 'readline'):
            return raw('f:strread', self.fs_get(o.f['path']))
        if name in ('seek', 'truncate'):
            if name == 'truncate':
                self.fs_set(o.f['path'], raw('empty'))
            return NONE
        return unk('file.' + name)

    def to_file(self, dest, item):
        if type(dest) is Phi:
            return self.branch(dest.c, lambda: self.to_file(dest.a, item), lambda: self.to_file(dest.b, item))
        if type(dest) is Ref and self.obj(dest).kind == 'file':
            return self.file_write(dest, item)
        self.fs_set(dest, raw('cat', raw('empty'), item))
        return NONE

    def json_dump(self, path, args, kw):
        item = raw('json', self.freeze(args[0]))
        if path.endswith('dumps'):
            return raw('f:strjson', self.freeze(args[0]))
        self.events.append(('json.dump', ir.LOC[0], args[0]))
        return self.to_file(args[1], item)

    def file_savetxt(self, args, kw):
        dest, data = args[0], args[1]
        fmt = kw.get('fmt', args[2] if len(args) > 2 else NONE)
        hdr = kw.get('header', NONE)
        rec = self.rec_fields(data) if type(data) is Ref else None
        cols = [self.freeze(x) for x in rec.values()] if rec else [self.freeze(data)]
        names = raw('tuple', *[string(k) for k in rec]) if rec else NONE
        item = raw('table', self.freeze(hdr), self.freeze(fmt), names, *cols)
        self.events.append(('savetxt', ir.LOC[0], fmt, hdr, data, kw))
        self.last_table = (data, fmt, hdr)
        return self.to_file(dest, item)

    def json_load(self, path, args, kw):
        if self.json_loader is not None:
            r = self.json_loader(self, args, kw)
            if r is not None:
                return r
        return unk('json.load')


def ir_exc():
    from .interp import EXC_BASES
    return EXC_BASES


def over_strings(fn, n):
    """fn of a constant text, through the alternatives of a choice"""
    if n.op == 's':
        return fn(n.args[0])
    if n.op == 'ite':
        return ite(n.args[0], over_strings(fn, n.args[1]), over_strings(fn, n.args[2]))
    raise ValueError(n)
