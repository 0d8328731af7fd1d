"""Matrices: every operation against the defining formula of its cells."""
from .lib import *
SRC = 'src/matrix.c'
HARNESS = dict(src='h_C26.c', what='histories of sums, products, transposes, copies and imports with aliased operands, recycled memory and failing allocations against plain arrays', bound='4 matrices up to 6 x 6, <= 14 operations')
TASKS = []
ASSUMPTIONS = ['every matrix has rows, columns >= 1, both below 2^31, their product below 2^32, and a cell array of exactly that length (as its own operations leave it)',
               'the destination of a transpose or copy is not its source']
BOUNDED = 'nothing beyond concrete re-checks'
B64 = z3.BitVecSort(64)
Z = lambda x: z3.ZeroExt(32, x)


class M:
    def __init__(h, T, names):
        h.ex = ex = T.ex(SRC)
        h.st = st = State()
        ex.ints = ex.abstract_mul = True
        h.mats, h.ok = {}, []
        for n in names:
            h.mats[n] = h.mat(n)
        ex.contracts['bfdev_array_resize'] = h.resize
        ex.contracts['bfdev_array_release'] = h.release
        h.last = None

    def mat(h, n):
        ex, st = h.ex, h.st
        r, c = fresh(n + '.row', 32), fresh(n + '.col', 32)
        h.ex.inputs.update({n + '.row': r, n + '.col': c})
        size = h.shape(st, r, c)
        D = ex.region(st, 'arr', n + '.data', size, 8, content=Base(n + '.cells', 64))
        R = ex.region(st, 'cells', n, 56, content={0: (8, Ptr(None, fresh('alloc'))), 8: (8, Ptr(None, fresh('alloc'))), 16: (8, fresh('capacity')),
                                                   24: (8, size), 32: (8, bv(8)), 40: (8, Ptr(D)), 48: (4, r), 52: (4, c)})
        return R, r, c, D, st.mem[D.id]

    def prod(h, r, c):
        return h.ex.mulop(Z(r), Z(c))

    def shape(h, st, r, c):
        """a matrix of this shape exists: its cell count is a 32-bit number"""
        p, q = h.prod(r, c), h.ex.mulop(r, c)
        st.assume(r != 0, c != 0, ULT(r, bv(2**31, 32)), ULT(c, bv(2**31, 32)), p == Z(q), q != 0)
        h.rows(st, r, c)
        return p

    def rows(h, st, r, c):
        """row starts: rows do not overlap (lemma task)"""
        ex = h.ex
        W = Z(c)
        dom = 'r%d' % r.hash()
        st.assume(Forall([dom, dom], lambda x, y: Imp(And(ULT(x, y), ULE(y, Z(r))), And(ULE(ex.mulop(x, W), bv(2**32)), ULE(ex.mulop(x, W) + W, ex.mulop(y, W)))), widths=[64, 64]))
        st.assume(ex.mulop(bv(0), W) == 0 if not z3.is_bv_value(ex.mulop(bv(0), W)) else z3.BoolVal(True))
        st.hint(dom, Z(r), bv(0))
        return dom

    def at(h, st, r, c, W, rows):
        st.hint('r%d' % rows.hash(), r)
        st.assume(h.ex.mulop(bv(0), Z(W)) == 0, Imp(r == 0, h.ex.mulop(r, Z(W)) == 0))
        return h.ex.mulop(r, Z(W)) + c

    def resize(h, ex, st, a, inst):
        arr, num = a
        ok = fresh('ok', 1)
        o = S(arr.off).as_long()
        old = st.mem[arr.reg.id].get(o + 32)
        s2 = st.copy()
        s2.assume(Not(ok))
        s2.ghost['oom'] = True
        st.assume(ok)
        D = ex.region(st, 'arr', 'data', num, 8, content=Base('grown', 64))
        dat = ex.addr_regions.get(term(old[1]).get_id()) if old else None
        if dat is not None:
            b, m, n = st.mem[dat.id], st.mem[D.id], dat.size
            st.assume(Forall('k', lambda k: Imp(And(ULT(k, n), ULT(k, num)), m.sel(k) == b.sel(k))))
        for p, v in ((16, num), (32, Ptr(D))):
            ex.store(st, Ptr(arr.reg, arr.off + p), v, ('ptr',) if isinstance(v, Ptr) else ('i', 64))
        st.ghost['data'] = D
        return Forks([(st, bv(0, 32)), (s2, bv(-12, 32))])

    def release(h, ex, st, a, inst):
        h.ex.store(st, Ptr(a[0].reg, a[0].off + 16), bv(0), ('i', 64))
        h.ex.store(st, Ptr(a[0].reg, a[0].off + 32), NULL, ('ptr',))
        st.ghost['released'] = st.ghost.get('released', ()) + (a[0].reg.id,)
        return None

    def final(h, s, n):
        R = h.mats[n][0]
        c = s.mem[R.id]
        return c[48][1], c[52][1], c[40][1], c[24][1]

    def same(h, s, n):
        """the matrix is as it was"""
        R, r, c, D, m = h.mats[n]
        r1, c1, d1, i1 = h.final(s, n)
        return And(term(r1) == r, term(c1) == c, term(d1) == D.addr, z3.BoolVal(s.mem[D.id] is m), term(i1) == D.size)


def cfgs(three):
    """which of the three arguments are the same matrix"""
    return {'distinct': 'abc', 'dest-is-left': 'aac', 'dest-is-right': 'aba', 'left-is-right': 'abb', 'all-same': 'aaa'}[three]


def t_addsub(op, which):
    def t(T):
        cf = cfgs(which)
        h = M(T, sorted(set(cf)))
        ex, st = h.ex, h.st
        d, x, y = cf
        (_, xr, xc, XD, A), (_, yr, yc, YD, B) = h.mats[x], h.mats[y]
        f = (lambda k: A.sel(k) + B.sel(k)) if op == 'add' else (lambda k: A.sel(k) - B.sel(k))

        def inv(ex, st, L):
            i = L.t('count')
            D = st.ghost['data']
            m = st.mem[D.id]
            st.hint('k', Z(i))
            P = [ULE(Z(i), XD.size), Forall('k', lambda k: Imp(ULT(k, Z(i)), m.sel(k) == f(k)), label='cells below')]
            if d == x:
                P.append(Forall('k', lambda k: Imp(And(ULE(Z(i), k), ULT(k, D.size)), m.sel(k) == A.sel(k)), label='cells above'))
            elif d == y:
                P.append(Forall('k', lambda k: Imp(And(ULE(Z(i), k), ULT(k, D.size)), m.sel(k) == B.sel(k)), label='cells above'))
            return P
        ex.loops[('bfdev_matrix_' + op, 0)] = LoopSpec(inv=inv, decreases=lambda ex, st, L: XD.size - Z(L.t('count')))

        def done(s, r):
            r = term(r)
            eq = And(xr == yr, xc == yc)
            if s.ghost.get('data') is None:
                ex.prove(s, And(r != 0, *[h.same(s, n) for n in sorted(set(cf))]), 'a refused operation changes nothing')
                ex.prove(s, Imp(Not(eq), r == bv(-22, 32)), 'different shapes are invalid')
                ex.prove(s, Or(Not(eq), z3.BoolVal(bool(s.ghost.get('oom')))), 'equal shapes are accepted')
                return
            ex.prove(s, And(r == 0, eq), 'performed for equal shapes only')
            dr, dc, dd, di = h.final(s, d)
            ex.prove(s, And(term(dr) == xr, term(dc) == xc, term(di) == XD.size, term(dd) == s.ghost['data'].addr), 'shape of the result')
            m = s.mem[s.ghost['data'].id]
            ex.prove(s, Forall('k', lambda k: Imp(ULT(k, XD.size), m.sel(k) == f(k))), 'every cell combines the two operands')
            ex.prove(s, And(*[h.same(s, n) for n in sorted(set(cf)) if n != d]), 'operands untouched')
        ex.run(st, 'bfdev_matrix_' + op, [Ptr(h.mats[n][0]) for n in (d, x, y)], done)
    return t


def t_mul(which):
    def t(T):
        cf = cfgs(which)
        h = M(T, sorted(set(cf)))
        ex, st = h.ex, h.st
        d, x, y = cf
        (_, ar, K, XD, A), (_, br, W, YD, B) = h.mats[x], h.mats[y]
        size = h.shape(st, ar, W)
        P = z3.Function('partial', B64, B64, B64, B64)    # sum of the first k products of cell (r, c)
        st.assume(Forall(['rr', 'cc'], lambda r, c: P(r, bv(0), c) == 0, widths=[64, 64]))
        fin = 'bfdev_matrix_mul'

        def live(st):
            D = st.ghost['data']
            return D, st.mem[D.id]

        def cell(st, r, c):
            st.hint('rr', r)
            st.hint('cc', c)
            return h.at(st, r, c, W, ar)

        def above(st, m, row):
            return Forall('k', lambda k: Imp(And(ULE(ex.mulop(row, Z(W)), k), ULT(k, size)), m.sel(k) == 0), label='cells of later rows are zero')

        def below(st, m, row):
            def body(r, c):
                i = cell(st, r, c)
                return Imp(And(ULT(r, row), ULT(c, Z(W))), m.sel(i) == P(r, Z(K), c))
            return Forall(['rr', 'cc'], body, widths=[64, 64], label='finished rows', seeds=lambda st, r, c: cell(st, r, c))

        def this(st, m, row, f, lab):
            return Forall('cc', lambda c: Imp(ULT(c, Z(W)), m.sel(cell(st, row, c)) == f(c)), label=lab, seeds=lambda st, c: st.hint('k', cell(st, row, c)))

        def outer(ex, st, L):
            row = Z(L.t('row'))
            D, m = live(st)
            cell(st, row, bv(0))
            cell(st, row + 1, bv(0))
            st.assume(ex.mulop(S(row + 1), Z(W)) == ex.mulop(S(row), Z(W)) + Z(W))
            return [ULE(row, Z(ar)), below(st, m, row), above(st, m, row)]
        ex.loops[(fin, 0)] = LoopSpec(inv=outer, decreases=lambda ex, st, L: Z(ar) - Z(L.t('row')))

        def mid(ex, st, L):
            row, k = Z(L.t('row')), Z(L.t('col'))
            D, m = live(st)
            h.at(st, row, k, K, ar)
            h.at(st, k, bv(0), W, br)
            return [ULT(row, Z(ar)), ULE(k, Z(K)), below(st, m, row), above(st, m, row + 1), this(st, m, row, lambda c: P(row, k, c), 'row in progress')]
        ex.loops[(fin, 1)] = LoopSpec(inv=mid, decreases=lambda ex, st, L: Z(K) - Z(L.t('col')))

        def inner(ex, st, L):
            row, k, c0 = Z(L.t('row')), Z(L.t('col')), Z(L.t('count'))
            D, m = live(st)
            a, b = A.sel(h.at(st, row, k, K, ar)), B.sel(h.at(st, k, c0, W, br))
            i = cell(st, row, c0)
            st.hint('k', i)
            st.assume(P(row, k + 1, c0) == P(row, k, c0) + ex.mulop(a, b))
            st.hint('cc', c0)
            return [ULT(row, Z(ar)), ULT(k, Z(K)), ULE(c0, Z(W)), L.t('value') == a, below(st, m, row), above(st, m, row + 1),
                    this(st, m, row, lambda c: If(ULT(c, c0), P(row, k + 1, c), P(row, k, c)), 'row in progress')]
        ex.loops[(fin, 2)] = LoopSpec(inv=inner, decreases=lambda ex, st, L: Z(W) - Z(L.t('count')))

        def done(s, r):
            r = term(r)
            if s.ghost.get('oom') or s.ghost.get('data') is None:
                ex.prove(s, And(r != 0, *[h.same(s, n) for n in sorted(set(cf))]), 'a refused operation changes nothing')
                ex.prove(s, Or(K != br, z3.BoolVal(bool(s.ghost.get('oom')))), 'fitting shapes are accepted')
                ex.prove(s, Imp(K != br, r == bv(-22, 32)), 'shapes that do not fit are invalid')
                return
            ex.prove(s, And(r == 0, K == br), 'performed for fitting shapes only')
            dr, dc, dd, di = h.final(s, d)
            ex.prove(s, And(term(dr) == ar, term(dc) == W, term(di) == size, term(dd) == s.ghost['data'].addr), 'shape of the result')
            m = s.mem[s.ghost['data'].id]
            ex.prove(s, Forall(['rr', 'cc'], lambda r, c: Imp(And(ULT(r, Z(ar)), ULT(c, Z(W))), m.sel(cell(s, r, c)) == P(r, Z(K), c)), widths=[64, 64],
                               seeds=lambda s, r, c: s.hint('k', cell(s, r, c))), 'every cell is the product of its row and its column')
            ex.prove(s, And(*[h.same(s, n) for n in sorted(set(cf)) if n != d]), 'operands untouched')
        ex.run(st, fin, [Ptr(h.mats[n][0]) for n in (d, x, y)], done)
    return t


def t_trans(T):
    h = M(T, 'ab')
    ex, st = h.ex, h.st
    (_, r0, c0, D0, _), (_, sr, sc, SD, A) = h.mats['a'], h.mats['b']
    h.rows(st, sc, sr)       # the same cells seen as sc rows of sr cells

    def cells(st, m, r, c):
        return m.sel(h.at(st, r, c, sr, sc)) == A.sel(h.at(st, c, r, sc, sr))

    def fin(st, m, row):
        return Forall(['rr', 'cc'], lambda r, c: Imp(And(ULT(r, row), ULT(c, Z(sr))), cells(st, m, r, c)), widths=[64, 64], label='finished rows', seeds=lambda st, r, c: cells(st, m, r, c))

    def outer(ex, st, L):
        row = Z(L.t('row'))
        st.hint('rr', row)
        return [ULE(row, Z(sc)), fin(st, st.mem[st.ghost['data'].id], row)]
    ex.loops[('bfdev_matrix_trans', 0)] = LoopSpec(inv=outer, decreases=lambda ex, st, L: Z(sc) - Z(L.t('row')))

    def inner(ex, st, L):
        row, col = Z(L.t('row')), Z(L.t('col'))
        m = st.mem[st.ghost['data'].id]
        st.hint('cc', col)
        h.at(st, row, col, sr, sc), h.at(st, col, row, sc, sr)
        return [ULT(row, Z(sc)), ULE(col, Z(sr)), fin(st, m, row), Forall('cc', lambda c: Imp(ULT(c, col), cells(st, m, row, c)), label='row in progress')]
    ex.loops[('bfdev_matrix_trans', 1)] = LoopSpec(inv=inner, decreases=lambda ex, st, L: Z(sr) - Z(L.t('col')))

    def done(s, r):
        r = term(r)
        ex.prove(s, h.same(s, 'b'), 'source untouched')
        if s.ghost.get('oom'):
            ex.prove(s, And(r != 0, h.same(s, 'a')), 'a failed operation changes nothing')
            return
        dr, dc, dd, di = h.final(s, 'a')
        ex.prove(s, And(r == 0, term(dr) == sc, term(dc) == sr, term(di) == SD.size, term(dd) == s.ghost['data'].addr), 'shape of the result')
        m = s.mem[s.ghost['data'].id]
        ex.prove(s, Forall(['rr', 'cc'], lambda r, c: Imp(And(ULT(r, Z(sc)), ULT(c, Z(sr))), cells(s, m, r, c)), widths=[64, 64], seeds=lambda s, r, c: cells(s, m, r, c)), 'cell (r, c) is source cell (c, r)')
    ex.run(st, 'bfdev_matrix_trans', [Ptr(h.mats['a'][0]), Ptr(h.mats['b'][0])], done)


def t_copy(imp):
    def t(T):
        h = M(T, 'a' if imp else 'ab')
        ex, st = h.ex, h.st
        if imp:
            r0, c0 = fresh('row', 32), fresh('col', 32)
            size = h.shape(st, r0, c0)
            SD = ex.region(st, 'arr', 'buffer', size, 8, content=Base('buf', 64), const=True)
            A = st.mem[SD.id]
        else:
            _, r0, c0, SD, A = h.mats['b']
            size = SD.size

        def done(s, r):
            r = term(r)
            if not imp:
                ex.prove(s, h.same(s, 'b'), 'source untouched')
            if s.ghost.get('oom'):
                ex.prove(s, And(r != 0, h.same(s, 'a')), 'a failed operation changes nothing')
                return
            dr, dc, dd, di = h.final(s, 'a')
            ex.prove(s, And(r == 0, term(dr) == r0, term(dc) == c0, term(di) == size, term(dd) == s.ghost['data'].addr), 'shape of the result')
            m = s.mem[s.ghost['data'].id]
            ex.prove(s, Forall('k', lambda k: Imp(ULT(k, size), m.sel(k) == A.sel(k))), 'every cell is copied')
        ex.run(st, 'bfdev_matrix_import' if imp else 'bfdev_matrix_set', [Ptr(h.mats['a'][0])] + ([Ptr(SD), r0, c0] if imp else [Ptr(h.mats['b'][0])]), done)
    return t


def t_data(T):
    h = M(T, 'a')
    ex, st = h.ex, h.st
    R, r, c, D, A = h.mats['a']
    i, j = fresh('i', 32), fresh('j', 32)
    ex.inputs.update(i=i, j=j)
    idx = h.at(st, Z(i), Z(j), c, r)
    # 32-bit and 64-bit row starts agree inside the matrix
    st.assume(Imp(ULT(i, r), h.prod(i, c) == Z(ex.mulop(i, c))))

    def done(s, p):
        inside = And(ULT(i, r), ULT(j, c))
        if isinstance(p, Ptr) and p.reg is D:
            ex.prove(s, And(inside, p.idx == idx), 'the cell in row i, column j')
        else:
            ex.prove(s, And(term(p) == 0, Not(inside)), 'nothing only outside the matrix')
        ex.prove(s, h.same(s, 'a'), 'nothing changes')
    ex.run(st, 'bfdev_matrix_data', [Ptr(R), i, j], done)


def t_release(T):
    h = M(T, 'a')
    ex, st = h.ex, h.st

    def done(s, r):
        dr, dc, dd, di = h.final(s, 'a')
        ex.prove(s, And(term(dr) == 0, term(dc) == 0, term(di) == 0, z3.BoolVal(s.ghost.get('released') == (h.mats['a'][0].id,))), 'empty, its cells released')
    ex.run(st, 'bfdev_matrix_release', [Ptr(h.mats['a'][0])], done)


def lemmas(T):
    ex = T.ex(SRC)
    st = State()
    st.frames = []
    x, y, W, R = (z3.Int(n) for n in 'xyWR')
    q = st.copy()
    q.assume(x >= 0, x < y, y <= R, R < 2**31, W >= 1, W < 2**31, R * W < 2**32)
    q.assume((y - x - 1) * W >= 0, (R - y) * W >= 0)   # products of non-negative numbers
    ex.prove(q, And(x * W + W <= y * W, x * W <= 2**32, y * W <= R * W), 'rows do not overlap and stay inside')
    a, b = z3.Int('a'), z3.Int('b')
    q = st.copy()
    q.assume(a >= 0, b >= 0)
    ex.prove(q, a * b >= 0, 'product of non-negative numbers')


TASKS = [('lemmas', lemmas)] + [('%s %s' % (op, w), t_addsub(op, w)) for op in ('add', 'sub') for w in ('distinct', 'dest-is-left', 'dest-is-right', 'left-is-right', 'all-same')] + \
    [('mul ' + w, t_mul(w)) for w in ('distinct', 'dest-is-left', 'dest-is-right', 'left-is-right', 'all-same')] + \
    [('trans', t_trans), ('set', t_copy(False)), ('import', t_copy(True)), ('data', t_data), ('release', t_release)]
