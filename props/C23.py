"""Sort and binary search: element positions are exact multiples of an arbitrary element size."""
from .lib import *
from .listlib import B64, INT

SRC, BS = 'src/sort.c', 'src/bsearch.c'
HARNESS = dict(src='h_C23.c', what='sort and search of arrays of every small element size and four orders, checked for order, permutation and membership', bound='up to 600 elements of up to 70 bytes, 6000 arrays per job')
ASSUMPTIONS = ['the comparator is a total preorder (a rank per element) and does not write', 'the array exists in memory (element size times count below 2^63)',
               'the find callback of a search is monotone over the array']
BOUNDED = 'nothing beyond concrete re-checks'
BOOL = z3.BoolSort()


def rank_cmp(st, r, a, b):
    """any long with the sign of a - b"""
    st.assume((r < 0) == (a < b), (r > 0) == (a > b))
    return r


def t_bsearch(fn):
    def t(T):
        ex = T.ex(BS)
        st = State()
        e, n = fresh('esize'), fresh('num')
        st.assume(e != 0, ULE(n, bv(2**62)))
        ex.scale = (e, n + 1)
        R = ex.region(st, 'arr', 'base', n, e, content=Base('elems', 8))
        # ord(i): sign of element i against the key, increasing over the array
        od = z3.Function('ord', B64, INT)
        st.assume(Forall(['p', 'p'], lambda i, j: Imp(And(ULT(i, j), ULT(j, n)), od(i) <= od(j)), widths=[64, 64]))
        ex.inputs['num'] = n
        pd = fresh('pdata')

        def find(ex, st, a, inst):
            p = a[0]
            ex.prove(st, p.reg is R and And(ULT(p.idx, n), term(a[1]) == pd), 'compares an element of the array')
            st.hint('p', p.idx)
            return rank_cmp(st, fresh('res'), od(p.idx), 0)
        ex.contracts['ufind'] = find
        ex.ints = True
        k = fresh('k')
        st.hint('p', k)
        pos = lambda L: L['base'].idx

        def inv(ex, st, L):
            lo, m = pos(L), L.t('num')
            st.hint('p', lo, lo - 1, lo + m)
            return [ULE(m, n), ULE(lo, n - m), Imp(And(ULT(k, n), od(k) == 0), And(ULE(lo, k), ULT(k, lo + m)))]
        ex.loops[('bfdev_bsearch_inline', 0)] = LoopSpec(inv=inv, decreases=lambda ex, st, L: L.t('num'))

        def done(s, r):
            if isinstance(r, Ptr) and r.reg is R:
                ex.prove(s, And(ULT(r.idx, n), od(r.idx) == 0), 'returns an equal element')
            else:
                ex.prove(s, term(r) == 0, 'an element or nothing')
                ex.prove(s, Imp(ULT(k, n), od(k) != 0), 'nothing only when no element is equal')
        ex.run(st, fn, [Ptr(R), n, e, Fn('ufind'), P(pd)], done)
    return t


def P(x):
    return Ptr(None, x)


def t_swap(T):
    """exchanges the bytes of two elements"""
    ex = T.ex(SRC)
    st = State()
    c, n, i, j = fresh('cells'), fresh('num'), fresh('i'), fresh('j')
    st.assume(c != 0, ULT(c, bv(2**40)), ULT(n, bv(2**40)))
    a0 = Base('mem', 8)
    R = ex.region(st, 'arr', 'base', n, 1, content=a0)
    st.assume(ULE(i, n), ULE(c, n - i), ULE(j, n), ULE(c, n - j), Or(ULE(i + c, j), ULE(j + c, i)))
    ex.inputs.update(cells=c, i=i, j=j)

    def done(s, r):
        x = fresh('x')
        m = s.mem[R.id]
        ex.prove(s, m.sel(x) == If(ULT(x - i, c), a0.sel(x - i + j), If(ULT(x - j, c), a0.sel(x - j + i), a0.sel(x))), 'exactly the two elements change places')
    ex.run(st, 'sort_swap', [c, Ptr(R, idx=i), Ptr(R, idx=j)], done)


def t_parent(T):
    """parent(c, c & -c, c*k) = c * ((k - 1) / 2) for every element size c and position k >= 1 (the array fits in memory)"""
    ex = T.ex(SRC)
    outs = []
    c, x = fresh('cells'), fresh('index')
    ls = z3.ZeroExt(32, z3.Extract(31, 0, c & -c))
    st = State()
    ex.run(st, 'parent', [c, z3.Extract(31, 0, c & -c), x], lambda s, r: outs.append(term(r)))
    r = outs[0]
    st = State()
    st.frames = []
    # c = o * 2^s with o odd; the code computes with b = c*(k-1)
    for s in range(64):
        o, k = z3.BitVec('o%d' % s, 64 - s), z3.BitVec('k%d' % s, 64 - s)
        c1 = z3.Concat(o, z3.BitVecVal(0, s)) if s else o
        q = st.copy()
        q.assume(z3.Extract(0, 0, o) == 1)
        if s < 32:
            ex.prove(q, c1 & -c1 == bv(1 << s), 'lowest bit of the size 2^%d*odd' % s)
        # the product keeps the trailing zeros and its bit s is the parity of the factor: (o*k)*2^s
        pr = z3.Concat(o * k, z3.BitVecVal(0, s)) if s else o * k
        ex.prove(q, (z3.Extract(0, 0, o * k)) == z3.Extract(0, 0, k), 'parity of a product with an odd factor')
        if s < 32:
            y = fresh('y')   # c*(k-1), its parity bit known
            par = fresh('par', 1)
            q2 = st.copy()
            q2.assume(z3.Extract(0, 0, o) == 1, (y & bv(1 << s) != 0) == par)
            got = z3.substitute(r, (c, c1), (x, y + c1))
            ex.prove(q2, got == z3.LShR(y - If(par, c1, bv(0)), 1), 'halves the even multiple below, size 2^%d*odd' % s)
    # 2*c*h halves to c*h when it does not wrap
    h = fresh('h')
    q = st.copy()
    q.assume(ULT(h, bv(2**63)))
    ex.prove(q, z3.LShR(2 * h, 1) == h, 'halving')


def t_sort(T):
    ex = T.ex(SRC)
    st = State()
    e, N = fresh('cells'), fresh('num')
    st.assume(e != 0, ULE(N, bv(2**60)), UGE(N, bv(2)))
    ex.ints = True
    ex.scale = (e, 2 * N + 2)
    ex.inputs['num'] = N
    R = ex.region(st, 'arr', 'base', N, e, content=Base('elems', 8))
    pd = fresh('pdata')
    val = z3.Function('val', INT, INT)      # rank of the element at a position
    st.ghost.update(val=val)
    par = lambda k: (k - 1) / 2
    sib = lambda k: 4 * par(k) + 3 - k
    I = lambda x: z3.BV2Int(x)
    ls = e & -e

    def at(ex, st, p, what):
        ex.prove(st, p.reg is R and And(ULT(p.idx, N), p.sub == 0), what)
        st.hint('p', I(p.idx))
        return I(p.idx)

    def cmp(ex, st, a, inst):
        i, j = at(ex, st, a[0], 'compares elements'), at(ex, st, a[1], 'compares elements')
        ex.prove(st, term(a[2]) == pd, 'callback data')
        v = st.ghost['val']
        return rank_cmp(st, fresh('res'), v(i), v(j))
    ex.contracts['ucmp'] = cmp

    def swap(ex, st, a, inst):
        ex.prove(st, a[0].eq(e) if z3.is_expr(a[0]) else a[0].q == 1, 'whole elements')
        i, j = at(ex, st, a[1], 'swaps elements'), at(ex, st, a[2], 'swaps elements')
        ex.prove(st, i != j, 'two different elements')
        v = st.ghost['val']
        if 'val0' not in st.ghost:
            # the root is the largest: by induction on the position
            q = st.copy()
            k = fresh('k', 'int')
            q.hint('p', k, par(k))
            q.assume(k >= 0, k <= j, Forall(['p'], lambda m: Imp(And(m >= 0, m < k), v(m) <= v(z3.IntVal(0))), widths=['int']))
            ex.prove(q, v(k) <= v(z3.IntVal(0)), 'the root is the largest')
            st.assume(Forall(['p'], lambda m: Imp(And(m >= 0, m <= j), v(m) <= v(z3.IntVal(0))), widths=['int']))
        st.ghost['val'] = lambda k: If(k == i, v(j), If(k == j, v(i), v(k)))
        return None
    ex.contracts['sort_swap'] = swap

    def parentc(ex, st, a, inst):
        q = scq(a[2])
        ex.prove(st, And(a[0] == e if not isinstance(a[0], Sc) else a[0].q == 1, term(a[1]) == z3.Extract(31, 0, ls) if a[1].size() == 32 else term(a[1]) == ls), 'element size and its lowest bit')
        ex.prove(st, And(q != 0, ULE(q, N)), 'parent of a position that has one')
        st.hint('p', par(I(q)))
        return Sc(S(z3.LShR(q - 1, 1)), e)
    ex.contracts['parent'] = parentc

    K = lambda L, n: I(scq(L[n]))
    NI = I(N)

    def F(st):
        v = st.ghost['val']
        return v

    def heap(v, i1, n, pc=None):
        return Forall(['p'], lambda j: Imp(And((j >= 1), (j < n), (par(j) >= i1)), v(par(j)) >= v(j)), widths=['int'], label='heap',
                      seeds=None if pc is None else (lambda st, j: st.hint('p', par(j), sib(j), pc(j), pc(par(j)), par(par(j)))))

    def tail(v, n, pc=None):
        """from n on in order, and nothing before n is larger than that"""
        return [Forall(['p'], lambda k: Imp(And(k >= 0, k < n, n < NI), v(k) <= v(n)), widths=['int'], label='largest at the end',
                       seeds=None if pc is None else (lambda st, k: st.hint('p', pc(k)))),
                Forall(['p'], lambda k: Imp(And(k >= n, k + 1 < NI), v(k) <= v(k + 1)), widths=['int'], label='end in order', seeds=lambda st, k: st.hint('p', k + 1))]

    def outer(ex, st, L):
        i1, n = K(L, 'idx1'), K(L, 'size')
        v, opc = F(st), st.ghost.get('pc')
        for g in ('leaf', 'i3', 'val0'):
            st.ghost.pop(g, None)
        st.ghost.update(path=z3.Function('path!', INT, BOOL), pc=z3.Function('pc!', INT, INT), start=None)
        st.hint('p', i1, n, n - 1, z3.IntVal(0))
        return [(n >= 1), (n <= NI), (i1 <= NI / 2), Imp(i1 != 0, n == NI), heap(v, i1, n, opc)] + tail(v, n, opc)

    def lab(x, l):
        x.label = l
        return x

    def pathinv(st, i1, n, leaf):
        p, pc, v = st.ghost['path'], st.ghost['pc'], F(st)
        return [p(i1), p(leaf), (i1 <= leaf),
                Forall(['p'], lambda k: Imp(p(k), And((k >= i1), (k <= leaf), Imp(k != i1, And(p(par(k)), (par(k) >= i1), pc(par(k)) == k)),
                                                    Imp(k != leaf, And(p(pc(k)), Or(pc(k) == 2 * k + 1, pc(k) == 2 * k + 2))))), widths=['int'], label='path'),
                Forall(['c', 'c'], lambda k, m: Imp(And(p(k), p(m), (k < m)), (k <= par(m))), widths=['int', 'int'], label='path is a chain', seeds=lambda st, k, m: st.hint('p', k, m, par(m)))]

    def bigger(st, v, i1, n):
        p = st.ghost['path']
        return Forall(['p'], lambda k: Imp(And(p(k), k != i1, (sib(k) < n)), v(sib(k)) <= v(k)), widths=['int'], label='larger children')

    def start(st, i1):
        """the path begins at i1"""
        if st.ghost.get('start') is None:
            st.ghost['start'] = True
            p = st.ghost['path']
            st.assume(Forall(['p'], lambda k: p(k) == (k == i1), widths=['int']))
            st.hint('p', i1, 2 * i1 + 1, 2 * i1 + 2)

    def hints(st, *ks):
        for k in ks:
            st.hint('p', k, par(k), 2 * k + 1, 2 * k + 2, sib(k))

    def down(ex, st, L):
        i1, i2, n = K(L, 'idx1'), K(L, 'idx2'), K(L, 'size')
        start(st, i1)
        hints(st, i1, i2)
        st.hint('c', i2)
        v = F(st)
        return [(i2 < n)] + pathinv(st, i1, n, i2) + [bigger(st, v, i1, n)]

    def downback(ex, st, L):
        i2 = K(L, 'idx2')
        p, pc, q = st.ghost['path'], st.ghost['pc'], par(i2)
        st.ghost['path'] = lambda k: Or(k == i2, p(k))
        st.ghost['pc'] = lambda k: If(k == q, i2, pc(k))
        hints(st, q)

    def climb(ex, st, L):
        i1, i2, n = K(L, 'idx1'), K(L, 'idx2'), K(L, 'size')
        if 'leaf' not in st.ghost:
            p0, pc0 = st.ghost['path'], st.ghost['pc']
            st.ghost['leaf'] = i2
            st.ghost['path'] = lambda k: Or(k == i2, p0(k))
            st.ghost['pc'] = lambda k: If(And(k == par(i2), (i2 > i1)), i2, pc0(k))
            hints(st, par(i2))
        leaf = st.ghost['leaf']
        p = st.ghost['path']
        v = F(st)
        hints(st, i1, i2, leaf)
        st.hint('c', i2)
        return [(leaf < n), (2 * leaf + 1 >= n), p(i2)] + pathinv(st, i1, n, leaf) + \
            [bigger(st, v, i1, n), Forall(['p|c'], lambda k: Imp(And(p(k), (k > i2)), v(k) <= v(i1)), widths=['int'], label='below are smaller')]

    def rotate(ex, st, L):
        i1, i2, i3, n = K(L, 'idx1'), K(L, 'idx2'), K(L, 'idx3'), K(L, 'size')
        if 'val0' not in st.ghost:
            st.ghost['val0'] = st.ghost['val']
            st.ghost['i3'] = i3
        v, v0 = st.ghost['val'], st.ghost['val0']
        p, pc = st.ghost['path'], st.ghost['pc']
        hints(st, i1, i2, i3)
        st.hint('c', i2)
        return [p(i2), (i2 <= i3), i3 == st.ghost['i3'],
                Forall(['p|c'], lambda x: v(x) == If(And(p(x), (x >= i2), (x < i3)), v0(pc(x)), If(x == i3, v0(i2), v0(x))), widths=['int'], label='moved up along the path')]
    ws = dict(shape=lambda ex, st, rid, o, samples: Sc(fresh('loc'), e))
    ex.loops[('bfdev_sort', 0)] = LoopSpec(inv=outer, ghosts=['val'], decreases=lambda ex, st, L: K(L, 'idx1') + K(L, 'size'), **ws)
    ex.loops[('bfdev_sort', 1)] = LoopSpec(inv=down, ghosts=['path', 'pc'], on_back=downback, decreases=lambda ex, st, L: K(L, 'size') - K(L, 'idx2'), **ws)
    ex.loops[('bfdev_sort', 2)] = LoopSpec(inv=climb, decreases=lambda ex, st, L: K(L, 'idx2'), **ws)
    ex.loops[('bfdev_sort', 3)] = LoopSpec(inv=rotate, ghosts=['val'], decreases=lambda ex, st, L: K(L, 'idx2'), **ws)

    def done(s, r):
        ex.prove(s, term(r) == 0, 'succeeds')
        i, j = fresh('i', 'int'), fresh('j', 'int')
        # from neighbours to all pairs: by induction on the upper position
        q, v = s.copy(), s.ghost['val']
        q.hint('p', j - 1, j)
        q.assume(i >= 0, i < j, j < NI, Imp(i < j - 1, v(i) <= v(j - 1)))
        ex.prove(q, v(i) <= v(j), 'order of neighbours')
        s.assume(Imp(And(i >= 0, (i < j), (j < NI)), v(i) <= v(j)))
        s.hint('p', i, j)
        v = s.ghost['val']
        ex.prove(s, Imp(And(i >= 0, (i < j), (j < NI)), v(i) <= v(j)), 'the array is in order')
    ex.run(st, 'bfdev_sort', [Ptr(R), N, e, Fn('ucmp'), P(pd)], done)


def t_refuse(T):
    for k in range(3):
        ex = T.ex(SRC)
        st = State()
        n, e = fresh('num'), fresh('cells')
        R = ex.region(st, 'arr', 'base', bv(64), 1, content=Base('b', 8))
        if k == 2:
            st.assume(ULE(n, bv(1)))
        ex.run(st, 'bfdev_sort', [NULL if k == 0 else Ptr(R), n, e, NULL if k == 1 else Fn('ucmp'), P(fresh('pd'))],
               lambda s, r: ex.prove(s, And(term(r) == bv(-22 & 0xffffffff, 32), z3.BoolVal(s.mem[R.id] is st.mem[R.id])), 'refused, nothing touched'))


TASKS = [('bsearch', t_bsearch('bfdev_bsearch')), ('sort', t_sort), ('swap', t_swap), ('parent', t_parent), ('refuse', t_refuse)]
