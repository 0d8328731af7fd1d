"""ARC4 run in lock step with a textbook ghost implementation."""
from .lib import *
HARNESS = dict(src='h_C20.c', what='key schedule, split calls and in-place double application against a textbook implementation', bound='keys up to 600 bytes, data up to 1200 bytes, 20,000 cases per job')
ASSUMPTIONS = ['key length is positive (the library ignores an empty key)', 'source and destination are the same buffer or do not overlap']
BOUNDED = 'nothing beyond concrete re-checks'
SRC = 'src/crypto/arc4.c'


def z(x):
    return z3.ZeroExt(56, x)


def same(C, a, b, label='box'):
    return Forall([C.dom], lambda x: Imp(ULT(x, bv(256)), a.sel(x) == b.sel(x)), label=label)


def ghost_step(st, C, S0, i, j):
    """one textbook PRGA step; returns box, i, j, key byte"""
    i = i + 1
    st.hint(C.dom, z(i))
    si = S0.sel(S(z(i)))
    j = j + si
    sj = S0.sel(S(z(j)))
    st.hint(C.dom, z(j))
    S1 = Store(Store(S0, (S(z(i)),), sj), (S(z(j)),), si)
    t = S(z(si + sj))
    st.hint(C.dom, t)
    return S1, i, j, S1.sel(t)


def trans(inplace):
    def task(T):
        ex = T.ex(SRC)
        st = State()
        n = fresh('size')
        ex.inputs['size'] = n
        st.assume(ULT(n, bv(1 << 62)))
        C = ex.region(st, 'arr', 'ctx', bv(258), 1)
        B = ex.region(st, 'arr', 'buff', n, 1)
        D = B if inplace else ex.region(st, 'arr', 'data', n, 1, const=True)
        d = st.mem[D.id]
        box0 = st.mem[C.id]
        i0, j0 = fresh('i', 8), fresh('j', 8)
        st.assume(box0.sel(bv(256)) == i0 + 1, box0.sel(bv(257)) == j0)
        st.ghost.update(S=box0, i=i0, j=j0, K=Base('key', 8), k=bv(0), a=bv(0, 8))
        fn = 'arc4_transform'

        def inv(ex, st, L):
            G, k = st.ghost, st.ghost['k']
            box, out = st.mem[C.id], st.mem[B.id]
            i = term(L['proa'])
            st.hint(C.dom, z(i), z(term(L['prob'])))
            st.hint('o', k)
            st.hint(B.dom, k)
            r = [('in step', And(ULT(k, n), term(L['size']) == n - k, L['buff'].idx == k, L['data'].idx == k, i == G['i'] + 1,
                                 term(L['vx']) == G['S'].sel(S(z(i))), term(L['prob']) == G['j'] + term(L['vx']), term(L['vy']) == G['S'].sel(S(z(term(L['prob'])))))),
                 same(C, box, G['S']),
                 Forall(['o'], lambda x: Imp(ULT(x, k), out.sel(x) == d.sel(x) ^ G['K'].sel(x)), label='output')]
            if inplace:
                r.append(Forall(['o'], lambda x: Imp(UGE(x, k), out.sel(x) == d.sel(x)), label='rest untouched'))
            return r

        def step(st):
            G = st.ghost
            G['S'], G['i'], G['j'], key = ghost_step(st, C, G['S'], G['i'], G['j'])
            G['K'] = Store(G['K'], (G['k'],), key)
            st.hint('o', G['k'])
            G['k'] = S(G['k'] + 1)
        ex.loops[(fn, 0)] = LoopSpec(inv=inv, ghosts=['S', 'i', 'j', 'K', 'k'], on_back=lambda ex, st, L: step(st), decreases=lambda ex, st, L: (term(L['size']),))

        def done(s, r):
            if ex.feasible(s, n == 0) and not ex.feasible(s, n != 0):
                ex.prove(s, s.mem[C.id] is box0, 'nothing happens for an empty request')
                return
            step(s)
            G = s.ghost
            box, out = s.mem[C.id], s.mem[B.id]
            ex.prove(s, G['k'] == n, 'one key byte per data byte')
            ex.prove(s, Forall(['o'], lambda x: Imp(ULT(x, n), out.sel(x) == d.sel(x) ^ G['K'].sel(x))), 'output is data XOR the textbook keystream')
            ex.prove(s, [('box', same(C, box, G['S'])), ('counters', And(box.sel(bv(256)) == G['i'] + 1, box.sel(bv(257)) == G['j']))], 'the context continues the textbook state')
        ex.run(st, 'bfdev_arc4_trans', [Ptr(C), Ptr(B), Ptr(D), n], done)
    return task


def setkey(T):
    ex = T.ex(SRC)
    ex.abstract_div = True
    st = State()
    kl = fresh('klen', 32)
    ex.inputs['klen'] = kl
    st.assume(kl != 0)
    C = ex.region(st, 'arr', 'ctx', bv(258), 1)
    K = ex.region(st, 'arr', 'key', z3.ZeroExt(32, kl), 1, const=True)
    key = st.mem[K.id]
    ident = FnArr(lambda k: z3.Extract(7, 0, k), 8)
    st.ghost.update(S=Store(ident, (bv(1 << 40),), bv(0, 8)), j=bv(0, 8), k=bv(0))
    fn = 'bfdev_arc4_setkey'

    def cnt(L):
        return z3.ZeroExt(32, term(L['count']))

    def head(box):
        return ('counters', And(box.sel(bv(256)) == 1, box.sel(bv(257)) == 0))

    def inv0(ex, st, L):
        box = st.mem[C.id]
        st.hint(C.dom, cnt(L))
        return [('count', ULE(cnt(L), bv(256))), head(box), Forall([C.dom], lambda x: Imp(ULT(x, cnt(L)), box.sel(x) == z3.Extract(7, 0, x)), label='identity')]

    def inv1(ex, st, L):
        box, G = st.mem[C.id], st.ghost
        st.hint(C.dom, cnt(L), G['k'])
        return [('in step', And(ULE(cnt(L), bv(256)), G['k'] == cnt(L), term(L['loop']) == G['j'])), head(box), same(C, box, G['S'])]

    def step(ex, st, L):
        G = st.ghost
        i = G['k']
        si = G['S'].sel(i)
        j = G['j'] + si + key.sel(S(z3.ZeroExt(32, z3.URem(z3.Extract(31, 0, i), kl))))
        zj = S(z(j))
        st.hint(C.dom, zj)
        G['S'] = Store(Store(G['S'], (i,), G['S'].sel(zj)), (zj,), si)
        G['j'], G['k'] = j, S(i + 1)
    ex.loops[(fn, 0)] = LoopSpec(inv=inv0, decreases=lambda ex, st, L: (256 - cnt(L),))
    ex.loops[(fn, 1)] = LoopSpec(inv=inv1, ghosts=['S', 'j', 'k'], on_back=step, decreases=lambda ex, st, L: (256 - cnt(L),))

    def done(s, r):
        box, G = s.mem[C.id], s.ghost
        ex.prove(s, [('rounds', G['k'] == 256), head(box), ('box', same(C, box, G['S']))], 'the box is the textbook key schedule, counters at the start')
    ex.run(st, fn, [Ptr(C), Ptr(K), kl], done)


TASKS = [('transform', trans(False)), ('transform in place', trans(True)), ('key schedule', setkey)]
