"""Base64, Base32, Ascii85."""
from .lib import *
HARNESS = dict(src='h_C17.c', what='encode, decode and round trips on exact-size buffers, arbitrary and mutilated texts', bound='lengths up to 200 bytes, 60,000 cases per job')
ASSUMPTIONS = ['sizes below 2^59 (announced lengths cannot wrap)', 'source and destination do not overlap',
               'ascii85 pads the final group with zero bytes, as the library documents only by its code; the decode destination holds four bytes per group (see the known finding)']
BOUNDED = 'nothing beyond concrete re-checks'
A64 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
A32 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZ234567'
ALL8 = z3.BitVecSort(8)


class Base:
    """c bits per character, G characters and Y bytes per group"""

    def __init__(b, name, c, G, Y, alpha):
        b.name, b.c, b.G, b.Y, b.alpha = name, c, G, Y, alpha
        b.lg = G.bit_length() - 1

    def table(b, ex):
        m = ex.mods[0]
        ex.global_ptr(State(), b.name + '_encode_table', m)
        ex.global_ptr(State(), b.name + '_decode_table', m)
        fe, ve, _ = ex.tables[b.name + '_encode_table']
        fd, vd, _ = ex.tables[b.name + '_decode_table']
        st = State()
        st.frames = []
        ex.prove(st, bytes(ve) == b.alpha, 'encode table is the standard alphabet')
        inv = [b.alpha.index(i) if i in b.alpha else 0xff for i in range(256)]
        ex.prove(st, vd == inv, 'decode table inverts the alphabet and rejects every other byte')
        b.fe, b.fd = (lambda v: fe(z3.ZeroExt(56, v))), (lambda v: fd(z3.ZeroExt(56, v)))
        return fe, fd

    def chars(b, byts):
        """the G character values of a group of Y bytes"""
        w = z3.Concat(*byts)
        n = 8 * b.Y
        return [z3.ZeroExt(8 - b.c, z3.Extract(n - 1 - b.c * i, n - b.c * (i + 1), w)) for i in range(b.G)]

    def bytes_of(b, vals):
        w = z3.Concat(*[z3.Extract(b.c - 1, 0, v) for v in vals])
        n = 8 * b.Y
        return [z3.Extract(n - 1 - 8 * i, n - 8 * (i + 1), w) for i in range(b.Y)]

    def E(b, d, n):
        """standard text of d[0..n) as a function of (group, position)"""
        def text(g):
            byts = [If(ULT(b.Y * g + i, n), d.sel(S(b.Y * g + i)), bv(0, 8)) for i in range(b.Y)]
            v = b.chars(byts)
            return [If(UGE(b.Y * g + b.c * i // 8, n), bv(ord('='), 8), b.fe(v[i])) for i in range(b.G)]
        return text

    def arith(b, T, n, ng):
        """facts about groups used below, each proved over the integers for arbitrary values"""
        lim = bv(1 << 59)
        ex = T.ex('src/crypto/%s.c' % b.name)
        ex.ints = True

        def env():
            st = State()
            st.frames = []
            N, NG, g = fresh('n'), fresh('ng'), fresh('g')
            st.assume(ULT(N, lim), ULT(NG, lim), ULT(g, lim))
            return st, N, NG, g
        F = {}
        F['below'] = lambda N, NG, g: Imp(And(UGE(b.Y * NG, N), ULT(b.Y * g, N)), ULT(g, NG))
        F['last'] = lambda N, NG, g: Imp(And(UGE(b.Y * NG, N), Or(NG == 0, ULT(b.Y * (NG - 1), N)), ULE(b.Y * g, N), ULT(N, b.Y * g + b.Y)), NG == If(N == b.Y * g, g, g + 1))
        F['room'] = lambda N, NG, g: Imp(ULT(g, NG), ULE(b.Y * g + b.Y, b.Y * NG))
        for k, f in F.items():
            st, N, NG, g = env()
            ex.prove(st, f(N, NG, g), 'group arithmetic: ' + k)
        return [Forall(['g'], lambda g, f=f: Imp(ULT(g, lim), f(n, ng, g))) for f in F.values()]

    def encode(b, T):
        ex = T.ex('src/crypto/%s.c' % b.name)
        ex.gf2 = True
        b.table(ex)
        st = State()
        n, ng = fresh('size'), fresh('groups')
        ex.inputs['size'] = n
        lim = bv(1 << 59)
        st.assume(ULT(n, lim), ULT(ng, lim), UGE(b.Y * ng, n), Or(ng == 0, ULT(b.Y * (ng - 1), n)))
        st.foralls += b.arith(T, n, ng)
        D = ex.region(st, 'arr', 'data', n, 1, const=True)
        O = ex.region(st, 'arr', 'buff', b.G * ng, 1)
        d = st.mem[D.id]
        text = b.E(d, n)
        X = z3.Function('text.' + b.name, z3.BitVecSort(64), ALL8)
        # the standard text, position by position: position G*g+i is character i of group g
        st.foralls.append(Forall(['g'], lambda g: And([X(S(b.G * g + i)) == t for i, t in enumerate(text(g))])))
        fn = b.name + '_encode'
        st.ghost['g'] = bv(0)

        def inv(ex, st, L):
            g = st.ghost['g']
            out = st.mem[O.id]
            st.hint('g', g)
            return [('groups in step', And(ULE(b.Y * g, n), ULE(g, ng), term(L['size']) == n - b.Y * g, L['data'].idx == b.Y * g, L['prev'].idx == b.Y * g, L['buff'].idx == b.G * g)),
                    Forall(['o'], lambda k: Imp(ULT(k, b.G * g), out.sel(k) == X(k)), label='text so far')]

        def back(ex, st, L):
            st.ghost['g'] = S(st.ghost['g'] + 1)
        ex.loops[(fn, 0)] = LoopSpec(inv=inv, ghosts=['g'], on_back=back, decreases=lambda ex, st, L: (term(L['size']),))

        def done(s, r):
            out = s.mem[O.id]
            s.hint('g', s.ghost['g'])
            ex.prove(s, Forall(['o'], lambda k: Imp(ULT(k, b.G * ng), out.sel(k) == X(k))), 'the buffer holds exactly the standard text, padding included')
        ex.run(st, 'bfdev_%s_encode' % b.name, [Ptr(O), Ptr(D), n], done)
        # announced length
        ex2 = T.ex('/verif/harness/tu_enc.c')
        ex2.ints = True
        st = State()
        n, ng = fresh('size'), fresh('groups')
        st.assume(ULT(n, lim), ULT(ng, lim), UGE(b.Y * ng, n), Or(ng == 0, ULT(b.Y * (ng - 1), n)))
        ex2.run(st, 'v_%s_el' % b.name, [n], lambda s, r: ex2.prove(s, term(r) == b.G * ng, 'announced encode length'))

    def decode(b, T):
        ex = T.ex('src/crypto/%s.c' % b.name)
        ex.gf2 = True
        b.table(ex)
        st = State()
        n, M, ng = fresh('size'), fresh('valid'), fresh('groups')
        ex.inputs.update(size=n, valid=M)
        lim = bv(1 << 59)
        st.assume(ULT(n, lim), ULE(M, n), ng == z3.LShR(n + b.G - 1, b.lg))
        st.foralls += b.arith(T, n, ng)
        D = ex.region(st, 'arr', 'text', n, 1, const=True)
        O = ex.region(st, 'arr', 'buff', b.Y * ng, 1)
        d = st.mem[D.id]
        st.foralls.append(Forall(['k'], lambda k: Imp(ULT(k, M), b.fd(d.sel(k)) != 0xff)))
        st.assume(Or(M == n, b.fd(d.sel(M)) == 0xff))
        fn = b.name + '_decode'

        def group(h, upto):
            """the bytes of group h when only its first `upto` characters count"""
            v = [b.fd(d.sel(S(b.G * h + i))) for i in range(b.G)]
            if upto is not None:
                v = [v[i] if i < upto else bv(0, 8) for i in range(b.G)]
            return b.bytes_of(v)
        X = z3.Function('bytes.' + b.name, z3.BitVecSort(64), ALL8)
        st.foralls.append(Forall(['g'], lambda g: And([X(S(b.Y * g + i)) == t for i, t in enumerate(group(g, None))])))

        def claim(out, g, s):
            """complete groups below g, and group g after s characters (s a term)"""
            fs = [Forall(['o'], lambda k: Imp(ULT(k, b.Y * g), out.sel(k) == X(k)), label='whole groups')]
            for u in range(1, b.G):
                x = group(g, u)
                last = b.c * u // 8
                part = (b.c * u) % 8
                fs.append(Imp(s == u, And([out.sel(S(b.Y * g + i)) == x[i] for i in range(last + (1 if part else 0))])))
            return fs

        def pos(g, s):
            r = b.Y * g
            for u in range(1, b.G):
                r = If(s == u, b.Y * g + b.c * u // 8, r)
            return r
        st.ghost['g'] = bv(0)

        def inv(ex, st, L):
            t = L['data'].idx
            g = st.ghost['g']
            st.hint('k', t)
            st.hint('g', g)
            st.hint('g', S(g - 1))
            s = t - b.G * g
            out = st.mem[O.id]
            return [('position', And(ULE(t, M), ULE(t, n), ULE(g, ng), ULE(b.G * g, t), ULT(s, b.G), term(L['size']) == n - t,
                                     z3.ZeroExt(32, term(L['bstate'])) & (b.G - 1) == s, L['buff'].idx == pos(g, s)))] + claim(out, g, s)

        def back(ex, st, L):
            t = L['data'].idx
            g = st.ghost['g']
            full = t == b.G * g + b.G
            st.ghost['g'] = S(If(full, g + 1, g))
            st.hint('g', g)
            f = ex.feasible(st, full), ex.feasible(st, Not(full))
            if f == (False, True):
                st.ghost['g'] = g
            elif f == (True, False):
                st.ghost['g'] = S(g + 1)
        ex.loops[(fn, 0)] = LoopSpec(inv=inv, ghosts=['g'], on_back=back, decreases=lambda ex, st, L: (term(L['size']),))

        def done(s, r):
            out = s.mem[O.id]
            g = s.ghost['g']
            s.hint('g', g)
            s.hint('k', M)
            ex.prove(s, term(r) == If(Or(M == n, d.sel(M) == ord('=')), bv(0, 32), bv(-22, 32)), 'succeeds exactly when the text ends or reaches padding')
            ex.prove(s, [('consumed', And(ULE(b.G * g, M), ULT(M - b.G * g, b.G)))] + claim(out, g, M - b.G * g), 'every whole byte before the end is decoded')
        ex.run(st, 'bfdev_%s_decode' % b.name, [Ptr(O), Ptr(D), n], done)
        ex2 = T.ex('/verif/harness/tu_enc.c')
        ex2.ints = True
        st = State()
        n = fresh('size')
        st.assume(ULT(n, lim))
        ex2.run(st, 'v_%s_dl' % b.name, [n], lambda s, r: ex2.prove(s, term(r) == b.Y * z3.LShR(n + b.G - 1, b.lg), 'announced decode length'))

    def lemma(b, T):
        """decode(encode(d)) == d, from the two specifications"""
        ex = T.ex('src/crypto/%s.c' % b.name)
        fe, fd = b.table(ex)
        ex.gf2 = False
        st = State()
        st.frames = []
        for i, c in enumerate(b.alpha):
            st.assume(fe(bv(i)) == c, fd(bv(c)) == i)
        r = fresh('bytes in the group')
        byts = [fresh('b%d' % i, 8) for i in range(b.Y)]
        st.assume(UGE(r, bv(1)), ULE(r, bv(b.Y)))
        z = [If(ULT(bv(i), r), byts[i], bv(0, 8)) for i in range(b.Y)]
        ch = b.chars(z)
        pad = [UGE(bv(b.c * i // 8), r) for i in range(b.G)]
        for i in range(b.G):
            ex.prove(st, Imp(Not(pad[i]), b.fd(b.fe(ch[i])) == ch[i]), 'character %d decodes to the value encoded' % i)
        for u in range(1, b.G + 1):
            back = b.bytes_of([ch[i] if i < u else bv(0, 8) for i in range(b.G)])
            here = And([Not(pad[i]) for i in range(u)] + ([pad[u]] if u < b.G else []))
            ex.prove(st, Imp(here, And([ULE(r, bv(b.c * u // 8))] + [Imp(ULT(bv(i), r), back[i] == byts[i]) for i in range(b.Y)])), 'with %d characters present every byte comes back' % u)


def val85(ch):
    v = z3.ZeroExt(24, ch[0]) - 33
    for c in ch[1:]:
        v = v * 85 + (z3.ZeroExt(24, c) - 33)
    return v


def digits(v):
    """base-85 digits, most significant first"""
    r = []
    for _ in range(5):
        r.insert(0, z3.URem(v, bv(85, 32)))
        v = z3.UDiv(v, bv(85, 32))
    return r


def a85_encode(T):
    ex = T.ex('src/crypto/ascii85.c')
    ex.abstract_div = True
    st = State()
    n, ng = fresh('size'), fresh('groups')
    ex.inputs['size'] = n
    st.assume(ULT(n, bv(1 << 59)), ng == z3.LShR(n + 3, bv(2)))
    D = ex.region(st, 'arr', 'data', n, 1, const=True)
    O = ex.region(st, 'arr', 'buff', 5 * ng, 1)
    N = ex.region(st, 'cells', 'plen', bv(8), content={0: (8, fresh('plen'))})
    d = st.mem[D.id]
    P = z3.Function('outpos', z3.BitVecSort(64), z3.BitVecSort(64))
    X = z3.Function('text85', z3.BitVecSort(64), ALL8)

    def v(g):
        return z3.Concat(*[If(ULT(4 * g + i, n), d.sel(S(4 * g + i)), bv(0, 8)) for i in range(4)])

    def define(g):
        w = v(g)
        return [P(S(g + 1)) == P(g) + If(w == 0, bv(1), bv(5)),
                If(w == 0, X(P(g)) == ord('z'), And([X(S(P(g) + i)) == z3.Extract(7, 0, x) + 33 for i, x in enumerate(digits(w))]))]
    st.assume(P(bv(0)) == 0)
    st.foralls.append(Forall(['g'], define))
    # R(g) stands for 5g; its facts are proved below for every g
    R = z3.Function('five', z3.BitVecSort(64), z3.BitVecSort(64))
    O.size = R(ng)

    def five(r, g, ng):
        return And(r(S(g + 1)) == r(g) + 5, Imp(ULT(g, ng), ULE(r(g) + 5, r(ng))), ULT(r(ng), bv(1 << 62)), ULT(r(g), bv(1 << 62)), r(bv(0)) == 0)
    st.foralls.append(Forall(['g'], lambda g: Imp(ULT(g, bv(1 << 58)), five(R, g, ng))))
    exl = T.ex('src/crypto/ascii85.c')
    exl.ints = True
    sl = State()
    sl.frames = []
    g_, ng_ = fresh('g'), fresh('ng')
    sl.assume(ULT(g_, bv(1 << 58)), ULT(ng_, bv(1 << 58)))
    exl.prove(sl, five(lambda x: 5 * x, g_, ng_), 'group arithmetic')
    st.ghost['g'] = bv(0)

    def inv(ex, st, L):
        g = st.ghost['g']
        out = st.mem[O.id]
        st.hint('g', g)
        return [('groups in step', And(ULE(4 * g, n), ULE(g, ng), ULE(P(g), R(g)), term(L['size']) == n - 4 * g, L['data'].idx == 4 * g, term(L['index']) == P(g))),
                Forall(['o'], lambda k: Imp(ULT(k, P(g)), out.sel(k) == X(k)), label='text so far')]
    ex.loops[('ascii85_encode', 0)] = LoopSpec(inv=inv, ghosts=['g'], on_back=lambda ex, st, L: st.ghost.__setitem__('g', S(st.ghost['g'] + 1)),
                                               decreases=lambda ex, st, L: (term(L['size']),))

    def done(s, r):
        out = s.mem[O.id]
        s.hint('g', s.ghost['g'])
        ex.prove(s, And(ng == s.ghost['g'] + If(n & 3 == 0, bv(0), bv(1)), term(ex.cells_get(s, N, 0)) == P(ng)), 'reports the length of the text')
        ex.prove(s, Forall(['o'], lambda k: Imp(ULT(k, P(ng)), out.sel(k) == X(k))), 'the buffer holds exactly the text')
    ex.run(st, 'bfdev_ascii85_encode', [Ptr(O), Ptr(D), Ptr(N), n], done)
    ex2 = T.ex('/verif/harness/tu_enc.c')
    ex2.ints = True
    st = State()
    n, ng = fresh('size'), fresh('groups')
    st.assume(ULT(n, bv(1 << 59)), ng == z3.LShR(n + 3, bv(2)))
    ex2.run(st, 'v_ascii85_el', [n], lambda s, r: ex2.prove(s, term(r) == 5 * ng, 'announced encode length'))
    # digits of v read back as v
    ex3 = T.ex('src/crypto/ascii85.c')
    ex3.ints = True
    st = State()
    st.frames = []
    w = fresh('value', 32)
    ds = digits(w)
    t = bv(0, 32)
    for i, x in enumerate(ds):
        ex3.prove(st, ULE(x, bv(84, 32)), 'digit %d in range' % i)
    q = [w]
    for i in range(4):
        q.append(z3.UDiv(q[-1], bv(85, 32)))
    for i in range(4):
        ex3.prove(st, q[i + 1] * 85 + z3.URem(q[i], bv(85, 32)) == q[i], 'horner step %d' % i)
    ex3.prove(st, ULT(q[4], bv(85, 32)), 'five digits suffice')


def a85_decode(T):
    ex = T.ex('src/crypto/ascii85.c')
    st = State()
    n, H = fresh('size'), fresh('groups')
    ex.inputs.update(size=n, groups=H)
    st.assume(ULT(n, bv(1 << 59)), ULE(H, n))
    D = ex.region(st, 'arr', 'text', n, 1, const=True)
    O = ex.region(st, 'arr', 'buff', 4 * H, 1)
    N = ex.region(st, 'cells', 'plen', bv(8), content={0: (8, fresh('plen'))})
    d = st.mem[D.id]
    Q = z3.Function('inpos', z3.BitVecSort(64), z3.BitVecSort(64))
    X = z3.Function('bytes85', z3.BitVecSort(64), ALL8)

    def ok(h):
        c = [d.sel(S(Q(h) + i)) for i in range(5)]
        return And(ULT(Q(h), n), Or(c[0] == ord('z'), And([ULE(bv(5), n - Q(h))] + [And(UGE(x, bv(33, 8)), ULE(x, bv(117, 8))) for x in c])))

    def define(h):
        c = [d.sel(S(Q(h) + i)) for i in range(5)]
        w = If(c[0] == ord('z'), bv(0, 32), val85(c))
        return [Q(S(h + 1)) == Q(h) + If(c[0] == ord('z'), bv(1), bv(5)), Imp(ULT(h, H), ok(h)),
                And([X(S(4 * h + i)) == z3.Extract(31 - 8 * i, 24 - 8 * i, w) for i in range(4)])]
    st.assume(Q(bv(0)) == 0, Not(ok(H)), ULE(Q(H), n))
    st.foralls.append(Forall(['g'], define))
    st.ghost['g'] = bv(0)

    def inv(ex, st, L):
        g = st.ghost['g']
        out = st.mem[O.id]
        st.hint('g', g)
        return [('groups in step', And(ULE(g, H), ULE(Q(g), n), term(L['size']) == n - Q(g), L['data'].idx == Q(g), term(L['index']) == 4 * g)),
                Forall(['o'], lambda k: Imp(ULT(k, 4 * g), out.sel(k) == X(k)), label='bytes so far')]
    ex.loops[('ascii85_decode', 0)] = LoopSpec(inv=inv, ghosts=['g'], on_back=lambda ex, st, L: st.ghost.__setitem__('g', S(st.ghost['g'] + 1)),
                                               decreases=lambda ex, st, L: (term(L['size']),))

    def done(s, r):
        out = s.mem[O.id]
        s.hint('g', s.ghost['g'])
        ex.prove(s, (term(r) == 0) == (Q(H) == n), 'accepts exactly the texts made of whole groups')
        s.assume(term(r) == 0)
        ex.prove(s, term(ex.cells_get(s, N, 0)) == 4 * H, 'reports the decoded length')
        ex.prove(s, Forall(['o'], lambda k: Imp(ULT(k, 4 * H), out.sel(k) == X(k))), 'the buffer holds the decoded groups')
    ex.run(st, 'bfdev_ascii85_decode', [Ptr(O), Ptr(D), Ptr(N), n], done)


TASKS = [('ascii85 encode', a85_encode), ('ascii85 decode', a85_decode)]
for B in (Base('base64', 6, 4, 3, A64), Base('base32', 5, 8, 5, A32)):
    TASKS += [(B.name + ' encode', B.encode), (B.name + ' decode', B.decode), (B.name + ' round trip', B.lemma)]
