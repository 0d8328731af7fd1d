"""Bit arithmetic primitives: every wrapper of harness/tu_bits.c against its definition."""
from .lib import *
from vcg.sym import popcount, ctz, clz, bswap

TU = '/verif/harness/tu_bits.c'
SRC = (TU, 'src/bitrev.c', 'src/popcount.c', 'src/bcd.c')
HARNESS = dict(src='h_C14.c', what='all primitives against bit-by-bit definitions',
               bound='all 8 and 16 bit arguments, all contiguous masks, 160000 mixed words')
BOUNDED = 'nothing beyond re-checking the contracts on concrete runs'


def zx(t, w):
    return t if t.size() == w else z3.ZeroExt(w - t.size(), t) if t.size() < w else z3.Extract(w - 1, 0, t)


def rev(x):
    w = x.size()
    return z3.Concat(*[z3.Extract(i, i, x) for i in range(w)])


def groups(x, g):
    w = x.size()
    out = [None] * w
    for i in range(w):
        out[i ^ g] = z3.Extract(i, i, x)
    return z3.Concat(*reversed(out))


def parity(x):
    r = z3.Extract(0, 0, x)
    for i in range(1, x.size()):
        r = r ^ z3.Extract(i, i, x)
    return zx(r, 32)


def fls0(x):
    """index of the highest set bit (x != 0)"""
    return bv(x.size() - 1, x.size()) - clz(x)


def one(ex, name, widths, spec, pre=None, st=None):
    st = (st or State()).copy()
    xs = [fresh(n, w) for n, w in zip('xyz', widths)]
    for n, x in zip('xyz', xs):
        ex.inputs['%s.%s' % (name, n)] = x
    if pre is not None:
        st.assume(pre(*xs))

    def ex_exit(s, r):
        want = spec(*xs)
        if z3.is_bool(r):
            r = If(r, bv(1, 32), bv(0, 32))
        ex.prove(s, zx(want, r.size()) == r, '%s returns its defined value' % name)
    ex.run(st, name, xs, ex_exit)


def find(T):
    ex = T.ex(*SRC)
    nz, nf = lambda x: x != 0, lambda x: ~x != 0
    for s in ('', '64'):
        n = lambda k: 'v_bfdev_%s%s' % (k, s)
        one(ex, n('ffsuf'), [64], ctz, nz)
        one(ex, n('flsuf'), [64], fls0, nz)
        one(ex, n('ffzuf'), [64], lambda x: ctz(~x), nf)
        one(ex, n('flzuf'), [64], lambda x: fls0(~x), nf)
        one(ex, n('ffs'), [64], lambda x: If(x == 0, bv(0), ctz(x) + 1))
        one(ex, n('fls'), [64], lambda x: If(x == 0, bv(0), fls0(x) + 1))
        one(ex, n('ffz'), [64], lambda x: If(~x == 0, bv(0), ctz(~x) + 1))
        one(ex, n('flz'), [64], lambda x: If(~x == 0, bv(0), fls0(~x) + 1))
        one(ex, n('ctz'), [64], ctz)
        one(ex, n('clz'), [64], clz)


def rotate(T):
    ex = T.ex(*SRC)
    for w in (8, 16, 32, 64):
        a = lambda n: z3.Extract(w - 1, 0, zx(n, 64)) & (w - 1)
        one(ex, 'v_rol%d' % w, [w, 32], lambda x, n: z3.RotateLeft(x, a(n)))
        one(ex, 'v_ror%d' % w, [w, 32], lambda x, n: z3.RotateRight(x, a(n)))


def table_fns(T):
    """table lookups for every byte, then the wide ones over the byte contract"""
    ex = T.ex(*SRC)
    for k, sp in (('bitrev', rev), ('popcount', popcount), ('popparity', parity)):
        one(ex, 'bfdev_%s8_dynamic' % k, [8], sp)
    for k, sp in (('bitrev', rev), ('popcount', popcount), ('popparity', parity)):
        ex = T.ex(*SRC)

        def contract(ex, st, a, inst, k=k, sp=sp):
            r = sp(a[0])
            w = {'bitrev': 8, 'popcount': 32, 'popparity': 1}[k]
            return S(zx(r, w)) if w > 1 else S(z3.Extract(0, 0, r) == 1)
        ex.contracts['bfdev_%s8_dynamic' % k] = contract
        for w in (8, 16, 32, 64):
            sx = (lambda x: popcount(x)) if k == 'popcount' else sp
            one(ex, 'v_%s%d_dynamic' % (k, w), [w], sx)
            one(ex, 'v_%s%d' % (k, w), [w], sx)
            one(ex, 'v_%s%d_const' % (k, w), [w], sx)


def logs(T):
    ex = T.ex(*SRC)
    lg = lambda x: If(ULT(x, bv(2, x.size())), bv(0, x.size()), fls0(x))
    one(ex, 'v_ilog2_dynamic', [64], lg)
    one(ex, 'v_ilog2_64_dynamic', [64], lg)
    one(ex, 'v_ilog2_l', [64], lg)
    one(ex, 'v_ilog2_i', [32], lambda x: lg(zx(x, 64)))
    for s in ('', '_dynamic'):
        st = State()
        x = fresh('x')
        st.assume(ULE(x, bv(1 << 63)))

        def up(s_, r, x=x):
            ex.prove(s_, Imp(x == 0, r == 0), 'roundup of 0')
            ex.prove(s_, Imp(x != 0, And(popcount(r) == 1, UGE(r, x), ULT(z3.LShR(r, bv(1)), x))), 'roundup: smallest power of two not below')

        def down(s_, r, x=x):
            ex.prove(s_, Imp(x == 0, r == 0), 'rounddown of 0')
            ex.prove(s_, Imp(x != 0, And(popcount(r) == 1, ULE(r, x), ULT(x - r, r))), 'rounddown: largest power of two not above')
        ex.run(st, 'v_roundup' + s, [x], up)
        ex.run(State(), 'v_rounddown' + s, [x], down)
    one(ex, 'v_pow2_check', [64], lambda x: If(popcount(x) == 1, bv(1), bv(0)))
    p2 = lambda x, y: popcount(y) == 1
    one(ex, 'v_round_down', [64, 64], lambda x, y: (x & ~(y - 1)), p2)
    one(ex, 'v_align_low', [64, 64], lambda x, y: x & ~(y - 1), p2)
    one(ex, 'v_align_check', [64, 64], lambda x, y: If(x & (y - 1) == 0, bv(1), bv(0)), p2)
    for n in ('v_round_up', 'v_align_high'):
        st = State()
        x, y = fresh('x'), fresh('y')
        st.assume(p2(x, y), ULE(x, ~(y - 1)))
        ex.run(st, n, [x, y], lambda s, r: ex.prove(s, And(r & (y - 1) == 0, UGE(r, x), ULT(r - x, y)), n + ': smallest multiple not below'))
    one(ex, 'v_low_mask', [32], lambda n: z3.LShR(bv(-1), zx(64 - n, 64)), lambda n: And(n >= 1, n <= 64))
    one(ex, 'v_high_mask', [32], lambda n: bv(-1) << zx(n, 64), lambda n: ULT(n, bv(64, 32)))
    one(ex, 'v_bit', [32], lambda n: bv(1) << zx(n & 63, 64))
    one(ex, 'v_bit_ull', [32], lambda n: bv(1) << zx(n & 63, 64))
    rng = lambda h, l: (bv(-1) << zx(l, 64)) & z3.LShR(bv(-1), zx(63 - h, 64))
    hl = lambda h, l: And(ULE(l, h), ULT(h, bv(64, 32)))
    one(ex, 'v_range', [32, 32], rng, hl)
    one(ex, 'v_range_ull', [32, 32], rng, hl)


def swabs(T):
    ex = T.ex(*SRC)
    todo = []
    for w in (16, 32, 64):
        for n in ('swab%d', 'swab%d_const', 'fswab%d', 'cpu_to_be%d', 'cpu_to_be%dc', 'be%d_to_cpu', 'be%d_to_cpuc'):
            todo.append((n % w, w, bswap, False))
        for n in ('cpu_to_le%d', 'cpu_to_le%dc', 'le%d_to_cpu', 'le%d_to_cpuc'):
            todo.append((n % w, w, lambda x: x, False))
        for n in ('swab%dp', 'cpu_to_be%dp', 'be%d_to_cpup'):
            todo.append((n % w, w, bswap, True))
        for n in ('cpu_to_le%dp', 'le%d_to_cpup'):
            todo.append((n % w, w, lambda x: x, True))
        todo.append(('swab%ds' % w, w, bswap, 's'))
    todo += [('swab', 64, bswap, False), ('swabs', 64, bswap, 's')]
    for n, w, g in (('swahb32', 32, 8), ('swahw32', 32, 16), ('swahb64', 64, 8), ('swahw64', 64, 16), ('swahl64', 64, 32)):
        f = lambda x, g=g: groups(x, g)
        todo += [(n, w, f, False), (n + '_const', w, f, False), ('f' + n, w, f, False), (n + 'p', w, f, True), (n + 's', w, f, 's')]
    for n, w, sp, ptr in todo:
        if not ptr:
            one(ex, 'v_' + n, [w], sp)
            continue
        st = State()
        x = fresh('x', w)
        R = ex.region(st, 'cells', 'word', bv(w // 8), content={0: (w // 8, x)})

        def done(s, r, x=x, R=R, sp=sp, ptr=ptr, n=n):
            v = term(ex.cells_get(s, R, 0)) if ptr == 's' else r
            ex.prove(s, v == sp(x), 'v_%s gives its defined value' % n)
        ex.run(st, 'v_' + n, [Ptr(R)], done)
    for n, w in (('swab16', 16), ('swab32', 32), ('swab64', 64), ('swab', 64)):
        ex = T.ex(*SRC)
        st = State()
        cnt = fresh('count', 32)
        ex.inputs['count'] = cnt
        B = ex.region(st, 'arr', 'buff', zx(cnt, 64), w // 8, w=w)
        b0 = st.mem[B.id]
        N = zx(cnt, 64)

        def inv(ex, st, L, B=B, b0=b0, N=N, w=w):
            left = zx(L.t('count'), 64)
            p = L['buff']
            p = ex.norm(p)
            cur = st.mem[B.id]
            dn = S(N - left)
            return [('countdown', ULE(left, N)), ('cursor', p.reg is B and p.sub == 0 and p.idx == dn),
                    ('prefix swapped', Forall('k', lambda k: cur.sel(k) == If(ULT(k, dn), bswap(b0.sel(k)), b0.sel(k))))]
        ex.loops[('bfdev_%s_array' % n, 0)] = ex.loops[('bfdev_swab%d_array' % w, 0)] = LoopSpec(inv=inv, decreases=lambda ex, st, L: L.t('count'))

        def done(s, r, B=B, b0=b0, N=N, ex=ex):
            cur = s.mem[B.id]
            k = fresh('k')
            s.hint('k', k)
            s.assume(ULT(k, N))
            ex.prove(s, cur.sel(k) == bswap(b0.sel(k)), 'every element swapped')
        ex.run(st, 'v_%s_array' % n, [Ptr(B), cnt], done)


def bcd(T):
    ex = T.ex(*SRC)
    b = lambda x: z3.UDiv(x, bv(10, 8)) * 16 + z3.URem(x, bv(10, 8))
    d = lambda x: z3.LShR(x, bv(4, 8)) * 10 + (x & 15)
    okb = lambda x: ULT(x, bv(100, 8))
    okd = lambda x: And(ULT(x & 15, bv(10, 8)), ULT(z3.LShR(x, bv(4, 8)), bv(10, 8)))
    for s in ('', '_dynamic', '_const'):
        one(ex, 'v_bin2bcd' + s, [8], b, okb)
        one(ex, 'v_bcd2bin' + s, [8], d, okd)


def bitaddr(T):
    """set/clear/flip/change/test of one bit in an array of words"""
    ex = T.ex(*SRC)
    todo = []
    for sfx, sw in (('', 0), ('_le', 0), ('_be', 56)):
        for at in ('', 'atomic_'):
            nm = lambda k: 'v_bit_%s%s%s' % (at, k, sfx)
            todo += [(nm('set'), 'set', sw, 0), (nm('clr'), 'clr', sw, 0), (nm('flip'), 'flip', sw, 0), (nm('change'), 'change', sw, 0),
                     (nm('test'), 'keep', sw, 1), (nm('test_set'), 'set', sw, 1), (nm('test_clr'), 'clr', sw, 1), (nm('test_flip'), 'flip', sw, 1)]
            if (at, sfx) != ('', '_le'):
                todo.append((nm('test_change'), 'change', sw, 1))
    for name, op, sw, ret in todo:
        st = State()
        bit, v = fresh('bit', 32), fresh('v', 32)
        ex.inputs['bit'] = bit
        words = fresh('words')
        B = ex.region(st, 'arr', 'map', words, 8, w=64)
        st.assume(ULT(words, bv(1 << 40)), ULT(z3.LShR(zx(bit, 64), bv(6)), words))
        b0 = st.mem[B.id]
        w = z3.LShR(zx(bit, 64), bv(6))
        m = bv(1) << zx((bit ^ sw) & 63, 64)
        old = b0.sel(w)
        on = z3.Extract(0, 0, v) == 1
        want = {'set': old | m, 'clr': old & ~m, 'flip': old ^ m, 'keep': old, 'change': If(on, old | m, old & ~m)}[op]

        def done(s, r, B=B, b0=b0, w=w, m=m, old=old, want=want, name=name, ret=ret):
            cur = s.mem[B.id]
            k = fresh('k')
            ex.prove(s, cur.sel(k) == If(k == w, want, b0.sel(k)), name + ' changes exactly the named bit')
            if ret:
                ex.prove(s, (r != 0) == (old & m != 0), name + ' returns the old bit')
        ex.run(st, name, [Ptr(B), bit] + ([v] if op == 'change' else []), done)


def nth(T):
    """ffnsp/flnsp and their zero versions; popcount enters through two lemmas proved first"""
    ex0 = T.ex(*SRC)
    st = State()
    ex0.prove(st, popcount(bv(0)) == 0, 'lemma: no bit in 0')
    x, k = fresh('x'), fresh('k')
    for i in range(64):
        m = bv(1 << i)
        s = st.copy()
        s.assume(x & m == 0)
        # compare bit sums of both words; all other bits coincide syntactically after the split
        hi = z3.Extract(63, i + 1, x) if i < 63 else None
        lo = z3.Extract(i - 1, 0, x) if i else None
        xs = z3.Concat(*[p for p in (hi, bv(0, 1), lo) if p is not None])
        xm = z3.Concat(*[p for p in (hi, bv(1, 1), lo) if p is not None])
        ex0.prove(s, And(x == xs, x | m == xm), 'lemma: split at bit %d' % i)
        ex0.prove(s, S(popcount(xm)) == S(popcount(xs)) + 1, 'lemma: one more bit at %d' % i)
    PC = z3.Function('bits', z3.BitVecSort(64), z3.BitVecSort(32))
    for name, last, zero in (('v_ffnsp', 0, 0), ('v_flnsp', 1, 0), ('v_ffnzp', 0, 1), ('v_flnzp', 1, 1)):
        ex = T.ex(*SRC)
        st = State()
        word, n0 = fresh('word'), fresh('nr', 32)
        ex.inputs.update(word=word, nr=n0)
        N = ex.region(st, 'cells', 'nr', bv(4), content={0: (4, n0)})
        W = ~word if zero else word
        st.assume(PC(bv(0)) == 0)

        def inv(ex, st, L, W=W, N=N, last=last, n0=n0):
            w = L.t('word')
            rem = W & ~w
            nr = term(ex.cells_get(st, N, 0))
            low = w & (~w + 1)
            order = (rem & w == 0, Imp(w != 0, ULT(rem, low))) if not last else (rem & w == 0, Imp(rem != 0, ULT(w, rem & (~rem + 1))))
            bit = bv(1) << (fls0(w) if last else ctz(w))
            # instance of the lemma for the bit taken next
            st.assume(Imp(And(w != 0, rem & bit == 0), PC(rem | bit) == PC(rem) + 1))
            return [('a part of the word', w & ~W == 0), ('what was taken lies on one side', And(*order)),
                    ('taken count', PC(rem) == n0 - nr), ('count', ULE(PC(rem), n0)), ('small', ULE(PC(rem), bv(64, 32)) if False else z3.BoolVal(True))]
        ex.loops[('bfdev_arch_flnsp' if last else 'bfdev_arch_ffnsp', 0)] = LoopSpec(inv=inv, decreases=lambda ex, st, L: L.t('word'))

        def done(s, r, W=W, n0=n0, N=N, ex=ex, last=last, name=name):
            nr = term(ex.cells_get(s, N, 0))
            r64 = zx(r, 64)
            side = (W & (bv(-2) << r64)) if last else (W & ~(bv(-1) << r64))
            # an all-ones word holds exactly r bits below position r (64-1-r above)
            s.assume(Imp(And(W == bv(-1), ULT(r, bv(64, 32))), PC(side) == (63 - r if last else r)))
            ex.prove(s, ULE(r, bv(64, 32)), name + ': position or 64')
            ex.prove(s, Imp(ULT(r, bv(64, 32)), And(z3.LShR(W, r64) & 1 == 1, PC(side) == n0)), name + ': the bit with exactly nr matching bits before it')
            ex.prove(s, Imp(r == 64, And(ULE(PC(W), n0), nr == n0 - PC(W))), name + ': 64 only when there are not enough, nr reduced by their number')
        ex.run(st, name, [word, Ptr(N)], done)
    ex0.prove(State(), And(*[S(popcount(bv((1 << r) - 1))) == r for r in range(64)]), 'lemma: bits of a low mask')
    ex0.prove(State(), And(*[S(popcount(bv(((1 << 64) - 1) & ~((2 << r) - 1)))) == 63 - r for r in range(64)]), 'lemma: bits of a high mask')


TASKS = [('find', find), ('rotate', rotate), ('tables', table_fns), ('log and rounding', logs), ('swab and endian', swabs), ('bcd', bcd), ('single bits', bitaddr), ('nth bit', nth)]
