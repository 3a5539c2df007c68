"""setup: check that the analyser itself works on a tiny positive example
(a rule that matches nothing would otherwise pass vacuously)."""
import sys
from .check import *          # noqa: F401,F403
from . import ir, gvn, rvn, skel
from .interp import Interp
from .ir import atom, num, TRUE

SRC = '''
import numpy as np
def f(x, n):
    a = np.arange(n)*x
    return np.sum(a*a)
def g(x, n):
    t = 0.
    for i in range(n):
        t = t + (i*x)**2
    return t
def h(x, n):
    t = 0.
    for i in range(n - 1):
        t = t + (i*x)**2
    return t
'''


def main():
    I = Interp({})
    m = I.load_source('tiny', 'tiny.py', SRC)
    fs = I.st.heap.get(m.oid).f
    v = [I.call(fs[k], [atom('x'), atom('int:n')], {}) for k in 'fgh']
    G, V = gvn.GVN(1), rvn.RVN(1)
    ok = not G.same(v[0], v[1]) and not V.differ(v[0], v[1])[0]
    bad = bool(G.same(v[0], v[2])) and bool(V.differ(v[0], v[2])[0])
    print('selftest: equal programs congruent=%s, different programs separated=%s' % (ok, bad))
    return 0 if ok and bad else 1


if __name__ == '__main__':
    rc = [1]
    t = threading.Thread(target=lambda: rc.__setitem__(0, main()))
    t.start()
    t.join()
    sys.exit(rc[0])
