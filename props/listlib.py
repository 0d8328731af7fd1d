"""Ghost sequences for circular doubly linked lists: a list is a sequence s[0..N) of distinct
nodes (s[0] the head) with next(s[i]) = s[i+1], prev(s[i+1]) = s[i], cyclically.  Positions are
mathematical integers, nodes are addresses."""
from .lib import *
B64 = z3.BitVecSort(64)
INT = z3.IntSort()
NX, PV = 'bfdev_list_head.8', 'bfdev_list_head.0'


class Seq:
    """ghost sequence; at: position -> node, idx: node -> position, N: length"""

    def __init__(self, at, idx, own, N):
        self.at, self.idx, self.own, self.N = at, idx, own, N


_n = [0]


def I(v):
    return z3.IntVal(v)


def fresh_seq(name, N=None):
    _n[0] += 1
    f = z3.Function('%s.at%d' % (name, _n[0]), INT, B64)
    g = z3.Function('%s.idx%d' % (name, _n[0]), B64, INT)
    n = fresh(name + '.N', 'int') if N is None else N
    q = Seq(lambda i: f(i), lambda x: g(x), None, n)
    q.own = lambda x: And(g(x) >= 0, g(x) < n, f(g(x)) == x)
    return q


def wrap(i, N):
    return If(i + 1 == N, I(0), i + 1)


def inr(i, N):
    return And(i >= 0, i < N)


def assume_list(ex, st, q, dom, NX=NX, PV=PV):
    """well formed list; positions are instantiated at terms hinted in dom"""
    st.assume(q.N >= 1)
    nx0, pv0 = ex.getmap(st, NX), ex.getmap(st, PV)

    def fact(i):
        a, b = q.at(i), q.at(wrap(i, q.N))
        return Imp(inr(i, q.N), And(nx0.sel(a) == b, pv0.sel(b) == a, q.idx(a) == i, q.idx(b) == wrap(i, q.N), a != 0))
    st.assume(Forall(dom, fact, widths=['int']))
    st.hint(dom, I(0), S(q.N - 1))


def near(st, dom, N, *ps):
    for p in ps:
        st.hint(dom, S(p), S(If(p == 0, N - 1, p - 1)), S(wrap(p, N)))


def prove_list(ex, st, q, label, dom_hints, NX=NX, PV=PV):
    """prove q represents a list now; dom_hints(i) -> [(dom, N, term)] old positions to look at"""
    i = fresh('i', 'int')
    s = st.copy()
    for dom, N, t in dom_hints(i):
        near(s, dom, N, t)
    s.assume(inr(i, q.N))
    nx, pv = ex.getmap(s, NX), ex.getmap(s, PV)
    a, b = q.at(i), q.at(wrap(i, q.N))
    ex.prove(s, nx.sel(a) == b, label + ': forward links follow the sequence')
    ex.prove(s, pv.sel(b) == a, label + ': backward links mirror it')
    ex.prove(s, And(q.idx(a) == i, a != 0), label + ': nodes distinct')
