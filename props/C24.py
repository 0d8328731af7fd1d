"""Weighted edit distance: the three rotating rows hold the rows of the defining table."""
from .lib import *
from .listlib import B64
SRC = 'src/levenshtein.c'
HARNESS = dict(src='h_C24.c', what='all kinds of short strings over small alphabets and weights against the whole defining table, with recycled memory', bound='strings below 9 characters, 30000 pairs per job')
BOUNDED = 'nothing beyond concrete re-checks'
ASSUMPTIONS = ['sums of weights along the table stay below 2^32 (the specification is stated in the same 32-bit arithmetic)', 'the first string is shorter than 2^58 bytes']
B32 = z3.BitVecSort(32)


def t_lev(T):
    ex = T.ex(SRC)
    ex.ints = True
    st = State()
    n, m = fresh('len1'), fresh('len2')
    s, w, a, d = (fresh(x, 32) for x in ('s', 'w', 'a', 'd'))
    st.assume(ULT(n, bv(2**58)))
    S1, S2 = Base('str1', 8), Base('str2', 8)
    R1 = ex.region(st, 'arr', 'str1', n, 1, content=S1, const=True)
    R2 = ex.region(st, 'arr', 'str2', m, 1, content=S2, const=True)
    ex.inputs.update(len1=n, len2=m)
    Dt = z3.Function('table', B64, B64, B32)
    ex.abstract_mul = True
    E = lambda k, c: ex.mulop(z3.simplify(z3.Extract(31, 0, k)), c)
    um = lambda x, y: If(ULT(y, x), y, x)

    def rule(j, i):
        """the cell j, i of the table, j and i positive"""
        best = Dt(j - 1, i - 1) + If(S1.sel(i - 1) == S2.sel(j - 1), bv(0, 32), s)
        best = If(And(UGT(j, 1), UGT(i, 1), S1.sel(i - 1) == S2.sel(j - 2), S1.sel(i - 2) == S2.sel(j - 1)), um(best, Dt(j - 2, i - 2) + w), best)
        best = um(best, Dt(j - 1, i) + a)
        return um(best, Dt(j, i - 1) + d)
    # the definition, unfolded at the cells the code computes
    st.assume(Forall('i', lambda i: Dt(bv(0), i) == E(i, d)), Forall('j', lambda j: Dt(j, bv(0)) == E(j, a)))
    st.hint('i', n)
    st.hint('j', m)
    got = []

    def make(ex, st, size, zero):
        ex.prove(st, size == 12 * (n + 1), 'room for three rows')
        C = ex.region(st, 'arr', 'cache', 3 * (n + 1), 4, content=Base('cache', 32), w=32)
        got[:] = [C]
        return Ptr(C)
    alloc_contracts(ex, make)
    Ln = n + 1

    def rows(L):
        return [L[x].idx for x in ('row1', 'row2', 'row3')]

    def perm(L):
        r1, r2, r3 = rows(L)
        return [Or(*[And(*[r == o * Ln for r, o in zip((r1, r2, r3), p)]) for p in ((0, 1, 2), (1, 2, 0), (2, 0, 1))]),
                z3.BoolVal(all(L[x].reg is got[0] for x in ('row1', 'row2', 'row3')))]

    def init(ex, st, L):
        M = st.mem[got[0].id]
        i = L.t('index1')
        st.hint('i', i)
        st.assume(E(i + 1, d) == E(i, d) + d, E(bv(0), d) == 0)
        return [ULE(i, n + 1), Forall('c', lambda k: Imp(ULT(k, i), M.sel(Ln + k) == Dt(bv(0), k)), label='first row')]
    ex.loops[('bfdev_levenshtein_len', 0)] = LoopSpec(inv=init, decreases=lambda ex, st, L: n + 1 - L.t('index1'))

    def full(M, r, j, lab):
        return Forall('c', lambda k: Imp(ULE(k, n), M.sel(r + k) == Dt(j, k)), label=lab)

    def outer(ex, st, L):
        j = L.t('index2')
        M = st.mem[got[0].id]
        r1, r2, r3 = rows(L)
        st.hint('j', j, j + 1)
        st.hint('c', bv(0), n)
        st.ghost['mem0'] = M
        st.assume(E(j + 1, a) == E(j, a) + a, E(bv(0), a) == 0)
        return [ULE(j, m)] + perm(L) + [full(M, r2, j, 'previous row'), Forall('c', lambda k: Imp(And(j != 0, ULE(k, n)), M.sel(r1 + k) == Dt(j - 1, k)), label='row before')]
    ex.loops[('bfdev_levenshtein_len', 1)] = LoopSpec(inv=outer, decreases=lambda ex, st, L: m - L.t('index2'))

    def inner(ex, st, L):
        j, i = L.t('index2'), L.t('index1')
        M = st.mem[got[0].id]
        r1, r2, r3 = rows(L)
        st.hint('c', i, i + 1, i - 1, bv(0), n)
        st.hint('i', i)
        # the cell being computed
        st.assume(Imp(And(ULT(i, n), ULT(j, m)), Dt(j + 1, i + 1) == rule(j + 1, i + 1)))
        M0 = st.ghost['mem0']
        return [ULE(i, n), ULT(j, m), full(M, r2, j, 'previous row'), Forall('c', lambda k: Imp(And(j != 0, ULE(k, n)), M.sel(r1 + k) == Dt(j - 1, k)), label='row before'),
                Forall('c', lambda k: Imp(ULT(k, i), M.sel(r3 + k) == Dt(j + 1, k)), label='this row'),
                M.sel(r3 + i) == Dt(j + 1, i)]
    ex.loops[('bfdev_levenshtein_len', 2)] = LoopSpec(inv=inner, decreases=lambda ex, st, L: n - L.t('index1'))

    def done(q, r):
        r = term(r)
        if q.ghost.get('oom'):
            ex.prove(q, r == bv(0xffffffff, 32), 'failed allocation')
        else:
            ex.prove(q, r == Dt(m, n), 'the last cell of the table')
            ex.prove(q, bool(not got) or q.ghost.get('none') or got[0].id in q.freed or bool(not ex.feasible(q, And(n != 0, m != 0))), 'the rows are released')
    ex.run(st, 'bfdev_levenshtein_len', [NULL, Ptr(R1), Ptr(R2), n, m, s, w, a, d], done)


def t_str(T):
    ex = T.ex(SRC)
    st = State()
    R1, R2 = (ex.region(st, 'arr', x, fresh(x), 1, content=Base(x, 8), const=True) for x in ('str1', 'str2'))
    ls = {R1.id: fresh('len1'), R2.id: fresh('len2')}
    ex.contracts['strlen'] = lambda ex, st, a, inst: (ex.prove(st, a[0].idx == 0, 'whole string'), ls[a[0].reg.id])[1]
    s, w, a, d = (fresh(x, 32) for x in ('s', 'w', 'a', 'd'))
    r, al = fresh('r', 32), fresh('alloc')
    n = []

    def lev(ex, st, g, inst):
        ex.prove(st, And(term(g[0]) == al, z3.BoolVal(g[1].reg is R1 and g[2].reg is R2), g[1].idx == 0, g[2].idx == 0, g[3] == ls[R1.id], g[4] == ls[R2.id],
                         *[x == y for x, y in zip(g[5:9], (s, w, a, d))]), 'distance of the two whole strings')
        n.append(1)
        return r
    ex.contracts['bfdev_levenshtein_len'] = lev
    ex.run(st, 'bfdev_levenshtein', [Ptr(None, al), Ptr(R1), Ptr(R2), s, w, a, d], lambda q, x: ex.prove(q, And(term(x) == r, z3.BoolVal(len(n) == 1)), 'as computed'))


TASKS = [('levenshtein_len', t_lev), ('levenshtein', t_str)]
