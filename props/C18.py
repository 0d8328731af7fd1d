"""CRC functions against bit-wise polynomial division."""
from .lib import *
HARNESS = dict(src='h_C18.c', what='all ten CRCs, whole and in two pieces, every alignment', bound='lengths up to 300 bytes, 40,000 buffers per job')
NOTE = 'GF(2)-affine obligations are decided by Gaussian elimination (vcg/gf2.py); table rows are checked affine by enumerating all 256 entries'
ASSUMPTIONS = ['the generated tables are those the build generators produce from /repo/scripts/gen-crc*.c with the parameters in scripts/CMakeLists.txt (regenerated on every run)',
               'crc4: a final group of fewer than eight bits is fed as a zero-extended byte of its low bits, as the code documents by construction']
BOUNDED = 'nothing beyond concrete re-checks'
# name, file, width, reflected, polynomial
CRCS = [('crc7', 'crc7', 8, 0, 0x12), ('crc8', 'crc8', 8, 0, 0x07), ('crc16', 'crc16', 16, 1, 0xa001),
        ('crc_ccitt', 'crc-ccitt', 16, 1, 0x8408), ('crc_itut', 'crc-itut', 16, 0, 0x1021), ('crc_t10dif', 'crc-t10dif', 16, 0, 0x8bb7),
        ('crc32', 'crc32', 32, 1, 0xedb88320), ('crc64', 'crc64', 64, 0, 0x42f0e1eba9ea3693), ('crc_rocksoft', 'crc-rocksoft', 64, 1, 0x9a6c9329ac4bc9b5)]


def step(c, d, w, le, poly):
    """divide one more message byte: eight shifts of the standard register"""
    p = bv(poly, w)
    d = z3.ZeroExt(w - 8, d) if w > 8 else d
    if le:
        c = c ^ d
        for _ in range(8):
            c = z3.LShR(c, 1) ^ If(z3.Extract(0, 0, c) == 1, p, bv(0, w))
    else:
        c = c ^ (d << (w - 8))
        for _ in range(8):
            c = (c << 1) ^ If(z3.Extract(w - 1, w - 1, c) == 1, p, bv(0, w))
    return c


def bswap(c, w):
    return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, c) for i in range(w // 8)]) if w > 8 else c


def crc(name, f, w, le, poly):
    def task(T):
        ex = T.ex('src/crypto/%s.c' % f)
        ex.gf2 = True
        st = State()
        n, c0 = fresh('len'), fresh('crc', w)
        ex.inputs.update(len=n, crc=c0)
        D = ex.region(st, 'arr', 'data', n, 1)
        d = st.mem[D.id]
        F = z3.Function('F.' + name, z3.BitVecSort(64), z3.BitVecSort(w))
        st.assume(F(bv(0)) == c0)
        st.foralls.append(Forall(['pos'], lambda k: F(S(k + 1)) == step(F(k), d.sel(k), w, le, poly)))
        enc = (lambda x: x) if le else (lambda x: bswap(x, w))
        fn = 'bfdev_%s_inline' % name

        def inv(ptr):
            def g(ex, st, L):
                p = L[ptr]
                ln = term(L['len'])
                pos = p.idx
                for j in range(8):
                    st.hint('pos', S(pos + j))
                return [('position within the data', And(ULE(pos, n), ln == n - pos)), ('register equals the remainder so far', term(L['crc']) == enc(F(pos)))]
            return g
        ex.loops[(fn, 0)] = LoopSpec(inv=inv('src'), decreases=lambda ex, st, L: (term(L['len']),))
        ex.loops[(fn, 1)] = LoopSpec(inv=inv('combine'), decreases=lambda ex, st, L: (term(L['len']),))
        ex.loops[(fn, 2)] = LoopSpec(inv=inv('src'), decreases=lambda ex, st, L: (term(L['len']),))
        ex.run(st, 'bfdev_' + name, [Ptr(D), n, c0], lambda s, r: ex.prove(s, term(r) == F(n), 'result is the polynomial remainder of the whole buffer'))
        # pieces: if the second call starts from the first one's result, both recurrences agree
        st = State()
        F2 = z3.Function('G.' + name, z3.BitVecSort(64), z3.BitVecSort(w))
        m, k = fresh('m'), fresh('k')
        x = fresh('byte', 8)
        st.frames = []
        st.assume(F2(k) == F(m + k), F2(k + 1) == step(F2(k), x, w, le, poly), F(m + k + 1) == step(F(m + k), x, w, le, poly))
        ex.prove(st, F2(k + 1) == F(m + k + 1), 'feeding the result forward continues the division (induction step)')
    return task


def crc4(T):
    ex = T.ex('src/crypto/crc4.c')
    ex.gf2 = True
    st = State()
    n, c0 = fresh('bits'), fresh('crc', 8)
    ex.inputs.update(bits=n, crc=c0)
    st.assume(ULE(n, bv((1 << 64) - 8)), ULT(c0, bv(16, 8)))
    D = ex.region(st, 'arr', 'data', z3.LShR(n + 7, bv(3)), 1)
    d = st.mem[D.id]
    F = z3.Function('F.crc4', z3.BitVecSort(64), z3.BitVecSort(8))
    st.assume(F(bv(0)) == c0)

    def s4(c, b):
        # crc*x^8 + byte*x^4 modulo x^4+x^2+x+1... (low four bits of the register)
        r = z3.Concat(bv(0, 4), (z3.Concat(bv(0, 4), z3.Extract(3, 0, c)) << 4) ^ b, bv(0, 4))
        for i in range(11, 3, -1):
            r = r ^ If(z3.Extract(i, i, r) == 1, bv(0x17 << (i - 4), 16), bv(0, 16))
        return z3.Extract(7, 0, r)
    E = z3.LShR(n, bv(3))
    st.foralls.append(Forall(['pos'], lambda k: Imp(ULT(k, E), F(S(k + 1)) == s4(F(k), d.sel(k)))))
    tail = d.sel(E) & ((bv(1, 8) << z3.Extract(7, 0, n & 7)) - 1)
    want = If(n & 7 == 0, F(E), s4(F(E), tail))
    fn = 'bfdev_crc4_inline'
    ex.splits = None

    def inv(ex, st, L):
        pos = L['src'].idx
        for j in range(4):
            st.hint('pos', S(pos + j))
        st.hint('pos', E)
        return [('position', And(ULE(pos, E), term(L['bits']) == n - 8 * pos)), ('register', term(L['crc']) == F(pos)), ('register range', ULT(term(L['crc']), bv(16, 8)))]

    def inv2(ex, st, L):
        pos = L['src'].idx
        st.hint('pos', pos)
        st.hint('pos', S(pos - 1))
        over = UGT(pos, E)
        return [('position', And(ULE(pos, z3.LShR(n + 7, bv(3))), term(L['bits']) == If(over, bv(0), n - 8 * pos), ULT(term(L['bits']), bv(32)))),
                ('register', term(L['crc']) == If(over, want, F(pos))), ('register range', ULT(term(L['crc']), bv(16, 8)))]
    ex.loops[(fn, 0)] = LoopSpec(inv=inv, decreases=lambda ex, st, L: (term(L['bits']),))
    ex.loops[(fn, 1)] = LoopSpec(inv=inv2, decreases=lambda ex, st, L: (term(L['bits']),))
    ex.run(st, 'bfdev_crc4', [Ptr(D), n, c0], lambda s, r: ex.prove(s, term(r) == want, 'result is the remainder of the given bits'))


TASKS = [(c[0], crc(*c)) for c in CRCS] + [('crc4', crc4)]
