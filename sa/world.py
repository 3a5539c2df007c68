"""Worlds: the repository's package interpreted abstractly on a skeleton
airplane, with helpers to call its public API on symbolic arguments."""
import os
from . import ir, skel
from .ir import atom, raw, TRUE, FALSE, NONE, string, num, not_, and_, or_, Node
from .heap import Obj, Ref, Phi, UNDEF, Bound, Func, ClassV, conj
from .interp import Interp, Dead, PyFunc

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

AERO = ('V_mag', 'rho', 'alpha', 'beta', 'roll_rate', 'pitch_rate', 'yaw_rate')
CTL = ('aileron', 'elevator', 'rudder', 'flap')


class AnchorLost(Exception):
    """a public name the property is stated about no longer exists"""


class Stop(Exception):
    """the rest of a group of obligations is pointless after a violation"""


class Outcome(object):
    """result of one abstract call: the value on normal exits, the state
    there, and every exceptional exit with its condition"""

    def __init__(self):
        self.val = None
        self.node = None
        self.dead = False
        self.state = None
        self.raises = []
        self.events = []

    def raise_cond(self):
        c = FALSE
        for e, s in self.raises:
            c = or_(c, conj(s.pc))
        return c


class World(object):
    def __init__(self, doc=None, root=None, use_api=False):
        self.root = root or REPO
        self.ck = None
        self.valid = True        # calls are made with valid arguments
        self.I = I = Interp({'machup': os.path.join(self.root, 'machup')})
        self.doc = doc
        I.json_loader = self._load
        self.docs = {}
        self.specs = {}
        self.pkg = I.load_module('machup')
        if self.pkg is None:
            raise AnchorLost('package machup')

    # ---------------------------------------------------------------- input
    def _load(self, I, a, k):
        return skel.build(I, self.doc) if self.doc is not None else None

    def mod(self, name):
        m = self.I.load_module(name)
        if m is None:
            raise AnchorLost(name)
        return m

    def attr(self, modname, name):
        m = self.mod(modname)
        v = self.I.st.heap.get(m.oid).f.get(name)
        if v is None or v is UNDEF:
            raise AnchorLost(modname + '.' + name)
        return v

    def machup(self, doc=None):
        if doc is not None:
            self.doc = doc
        o = self.call(self.attr('machup.MU', 'MachUp'), atom('infile', 'str'))
        if o.dead:
            raise Dead()
        return o.val

    def method(self, obj, name):
        I = self.I
        f = I.get_attr(obj, name)
        if f is None or f is UNDEF:
            raise AnchorLost(name)
        return f

    def spec(self, name):
        m = self.specs.get(name)
        if m is None:
            if name == 'analysis':
                self.spec('wing')
            p = os.path.join(HERE, 'spec', name + '.py')
            with open(p) as f:
                m = self.specs[name] = self.I.load_source('spec_' + name, p, f.read())
        return m

    def specfn(self, mod, fn):
        return self.I.st.heap.get(self.spec(mod).oid).f[fn]

    def state(self, label, keys, maybe=(), vals=None):
        """dict of unknowns; keys in `maybe` may be absent"""
        f = {}
        for k in keys:
            v = (vals or {}).get(k)
            f[k] = (TRUE, atom(label + '.' + k) if v is None else v)
        for k in maybe:
            f[k] = (raw('has', label, k), atom(label + '.' + k))
        return self.I.new_dict(f, label)

    def aero(self, maybe=False, label='aero'):
        if maybe:
            return self.state(label, ('V_mag', 'rho'), AERO[2:])
        return self.state(label, AERO)

    def ctl(self, maybe=False, label='ctl'):
        return self.state(label, () if maybe else CTL, CTL if maybe else ())

    def pstate(self, key='J', label='ps'):
        return self.state(label, (key,))

    # ----------------------------------------------------------------- calls
    def call(self, f, *args, **kw):
        I = self.I
        o = Outcome()
        n0, e0 = len(I.sink), len(I.events)
        try:
            o.val = I.call(f, list(args), kw)
        except Dead:
            o.dead = True
        o.raises = I.sink[n0:]
        o.events = I.events[e0:]
        o.state = I.st
        if self.ck is not None and self.valid:
            self.ck.crashes(self, o)
        if not o.dead:
            o.node = I.freeze(o.val)
        return o

    def do(self, obj, name, *args, **kw):
        return self.call(self.method(obj, name), *args, **kw)

    def dict_items(self, v):
        """{key: (presence, value)} of a dictionary value, or None"""
        if type(v) is Ref:
            o = self.I.obj(v)
            if o is not None and o.kind == 'dict':
                return o.f
        if type(v) is Phi:
            a, b = self.dict_items(v.a), self.dict_items(v.b)
            if a is None or b is None:
                return None
            out = {}
            for k in list(a) + [k for k in b if k not in a]:
                pa, x = a.get(k, (FALSE, None))
                pb, y = b.get(k, (FALSE, None))
                if pa is FALSE or pb is FALSE:
                    out[k] = (and_(v.c, pa) if pb is FALSE else and_(not_(v.c), pb), x if pb is FALSE else y)
                else:
                    out[k] = (or_(and_(v.c, pa), and_(not_(v.c), pb)), self.I.mval(v.c, x, y))
            return out
        return None

    def freeze(self, v):
        return self.I.freeze(v)

    def in_state(self, st, fn):
        """evaluate fn with the heap of another program point"""
        s = self.I.st
        self.I.st = st
        try:
            return fn()
        finally:
            self.I.st = s
