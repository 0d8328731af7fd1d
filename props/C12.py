"""Bitmaps: src/bitmap.c and the single-word header variants."""
from .lib import *
from .C13 import ONES, low, high, find_contracts
TU, SRC, WALK = '/verif/harness/tu_bitmap.c', '/repo/src/bitmap.c', '/repo/src/bitwalk.c'
HARNESS = dict(src='h_C12.c', what='every operation, general and constant-size paths, separate and in place, against a bit model', bound='sizes up to 512 bits')
ASSUMPTIONS = ['sizes and range ends are at most 2^32-64; single-word constant-size shifts are below 64; operands that are not the same bitmap do not overlap']
BOUNDED = 'byte-wise constant-size paths (memset/memcmp/memcpy of whole bytes), zero, fill and copy run in the harness only'
z = lambda t: z3.ZeroExt(32, t)
b32 = lambda v: z3.BitVecVal(v, 32)


def bit(f, i):
    return z3.Extract(0, 0, z3.LShR(f(z3.LShR(i, bv(6))), i & 63)) == 1


class Env:
    def __init__(e, T, names, alias=None):
        e.ex = ex = T.ex(TU, SRC, WALK)
        e.st = st = State()
        e.n = fresh('n', 32)
        ex.inputs['n'] = e.n
        e.N = z(e.n)
        st.assume(ULE(e.n, b32((1 << 32) - 64)))
        e.nw = z3.LShR(e.N + 63, bv(6))
        e.r, e.old = {}, {}
        for x in names:
            e.r[x] = e.r[alias] if x == 'd' and alias else ex.region(st, 'arr', x, e.nw, 8)
            e.old[x] = st.mem[e.r[x].id]

    def p(e, x):
        return Ptr(e.r[x])

    def m(e, k):
        """valid bits of word k"""
        return If(k == e.nw - 1, low(e.n), ONES)


F2 = {'and': lambda a, b: a & b, 'andnot': lambda a, b: a & ~b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b}


def done(e, s, want, changed_only=True):
    """every bit of the bitmap is the wanted one"""
    i = fresh('i')
    s.hint('w', z3.LShR(i, bv(6)))
    e.ex.prove(s, Imp(ULT(i, e.N), bit(s.mem[e.r['d'].id].sel, i) == want(i)), 'every bit of the result')


def logic(T, op, alias):
    """dest = op(src1, src2), and the truth value says whether any bit is set"""
    for none in (False, True):
        names = ['a', 'b', 'd'] if op in F2 else ['a', 'd']
        e = Env(T, names, alias)
        ex, st = e.ex, e.st
        A, Bm = e.old['a'], e.old.get('b')
        f = (lambda k: F2[op](A.sel(k), Bm.sel(k))) if op in F2 else (lambda k: ~A.sel(k))
        counts = op in ('and', 'andnot')
        if none and not counts:
            continue
        if none:
            st.assume(Forall('w', lambda k: Imp(ULT(k, e.nw), f(k) & e.m(k) == 0)))
        d0 = e.old['d']

        def inv(ex, st, L):
            i = z(L.t('index'))
            d = st.mem[e.r['d'].id]
            st.hint('w', i)
            out = [ULE(i, z(L.t('length'))), L.t('length') == z3.LShR(e.n, b32(6)),
                   Forall('w', lambda k: If(ULT(k, i), d.sel(k) == f(k), d.sel(k) == d0.sel(k)))]
            if counts:
                r = L.t('result')
                out.append(Forall('w', lambda k: Imp(And(r == 0, ULT(k, i)), f(k) == 0)))
                if none:
                    out.append(r == 0)
            return out
        ex.loops[('bfdev_bitmap_comp_' + op, 0)] = LoopSpec(inv=inv, decreases=lambda ex, st, L: z(L.t('length')) - z(L.t('index')))

        def fin(s, r):
            if none:
                s.hint('w', bv(0))
                ex.prove(s, r == 0 if not z3.is_bool(r) else Not(r), 'false when no bit remains')
                return
            done(e, s, lambda i: bit(f, i))
            if counts:
                i = fresh('i')
                s.hint('w', z3.LShR(i, bv(6)))
                zero = Not(r) if z3.is_bool(r) else r == 0
                ex.prove(s, Imp(And(zero, ULT(i, e.N)), Not(bit(f, i))), 'true when a bit remains')
        ex.run(st, 'w_' + op, [e.p('d'), e.p('a')] + ([e.p('b')] if op in F2 else []) + [e.n], fin)


def compare(T, op):
    """truth-valued comparisons: false only if some bit differs, true only if none does"""
    for none in (False, True):
        names = ['a', 'b', 'c'] if op == 'or_equal' else ['a', 'b']
        e = Env(T, names)
        ex, st = e.ex, e.st
        A, Bm, C = (e.old.get(x) for x in 'abc')
        f = {'equal': lambda k: A.sel(k) ^ Bm.sel(k), 'intersects': lambda k: A.sel(k) & Bm.sel(k),
             'or_equal': lambda k: (A.sel(k) | Bm.sel(k)) ^ C.sel(k)}[op]
        if none:
            st.assume(Forall('w', lambda k: Imp(ULT(k, e.nw), f(k) & e.m(k) == 0)))

        def inv(ex, st, L):
            i = z(L.t('index'))
            st.hint('w', i)
            return [ULE(i, z(L.t('length'))), L.t('length') == z3.LShR(e.n, b32(6)), Forall('w', lambda k: Imp(ULT(k, i), f(k) == 0))]
        ex.loops[('bfdev_bitmap_comp_' + op, 0)] = LoopSpec(inv=inv, decreases=lambda ex, st, L: z(L.t('length')) - z(L.t('index')))

        def fin(s, r):
            t = r if z3.is_bool(r) else r != 0
            says_none = t if op != 'intersects' else Not(t)
            if none:
                s.hint('w', bv(0), z3.LShR(e.N, bv(6)))
                ex.prove(s, says_none, 'no differing bit is reported as none')
            else:
                i = fresh('i')
                s.hint('w', z3.LShR(i, bv(6)))
                ex.prove(s, Imp(And(says_none, ULT(i, e.N)), Not(bit(f, i))), 'none is reported only when no bit differs')
        ex.run(st, 'w_' + op, [e.p(x) for x in names] + [e.n], fin)


def replace(T):
    e = Env(T, ['a', 'b', 'm', 'd'])
    ex, st = e.ex, e.st
    A, Bm, M = (e.old[x] for x in 'abm')
    f = lambda k: (A.sel(k) & ~M.sel(k)) | (Bm.sel(k) & M.sel(k))
    d0 = e.old['d']

    def inv(ex, st, L):
        i = z(L.t('index'))
        d = st.mem[e.r['d'].id]
        return [ULE(i, z(L.t('length'))), L.t('length') == z3.LShR(e.n, b32(6)),
                Forall('w', lambda k: If(ULT(k, i), d.sel(k) == f(k), d.sel(k) == d0.sel(k)))]
    ex.loops[('bfdev_bitmap_comp_replace', 0)] = LoopSpec(inv=inv, decreases=lambda ex, st, L: z(L.t('length')) - z(L.t('index')))
    ex.run(st, 'bfdev_bitmap_comp_replace', [e.p('d'), e.p('a'), e.p('b'), e.p('m'), e.n],
           lambda s, r: done(e, s, lambda i: bit(f, i)))


def shift(T, op, alias):
    e = Env(T, ['a', 'd'], alias)
    ex, st = e.ex, e.st
    sh = fresh('shift', 32)
    ex.inputs['shift'] = sh
    st.assume(Imp(ULE(e.n, b32(64)), ULT(sh, b32(64))), e.n != 0)
    S = z(sh)
    off, rem = z3.LShR(S, bv(6)), S & 63
    A, d0 = e.old['a'], e.old['d']

    def fl(k):
        hi = A.sel(k - off) << rem
        lo = If(And(rem != 0, k != off), z3.LShR(A.sel(k - off - 1), 64 - rem), bv(0))
        return hi | lo

    def fr(k):
        w = lambda j: A.sel(j) & If(j == e.nw - 1, low(e.n), ONES)
        lo = z3.LShR(w(k + off), rem)
        hi = If(And(rem != 0, ULT(k + off + 1, e.nw)), w(k + off + 1) << (64 - rem), bv(0))
        return lo | hi

    def inv(ex, st, L):
        i = z(L.t('index'))
        d = st.mem[e.r['d'].id]
        if alias:
            st.hint('w', *([i - 1, i - 2] if op == 'shl' else [i, i + off, i + off + 1]))
        com = [L.t('offset') == z3.LShR(sh, b32(6)), L.t('rem') == sh & 63, z(L.t('length')) == e.nw, ULT(off, e.nw)]
        if op == 'shl':
            return com + [ULE(i, e.nw - off), Imp(i == e.nw - off, e.n & 63 == 0),
                          Forall('w', lambda k: If(And(UGE(k, i + off), ULT(k, e.nw)), d.sel(k) & e.m(k) == fl(k) & e.m(k), d.sel(k) == d0.sel(k)))]
        return com + [ULE(i, e.nw - off),
                      Forall('w', lambda k: If(ULT(k, i), d.sel(k) == fr(k), d.sel(k) == d0.sel(k)))]
    ex.loops[('bfdev_bitmap_comp_' + op, 0)] = LoopSpec(inv=inv, decreases=lambda ex, st, L: z(L.t('index')) if op == 'shl' else e.nw - z(L.t('index')))

    def fin(s, r):
        if op == 'shl':
            done(e, s, lambda i: And(UGE(i, S), bit(A.sel, i - S)))
        else:
            done(e, s, lambda i: And(ULT(i + S, e.N), bit(A.sel, i + S)))
    ex.run(st, 'w_' + op, [e.p('d'), e.p('a'), sh, e.n], fin)


def rng(T, op):
    e = Env(T, ['d'])
    ex, st = e.ex, e.st
    start, cnt = fresh('start', 32), fresh('count', 32)
    ex.inputs.update(start=start, count=cnt)
    lo, hi = z(start), z(start) + z(cnt)
    st.assume(ULE(hi, e.N), ULT(lo, e.N))
    d0 = e.old['d']

    def upto(k, pos):
        """word k with the bits of [lo, pos) set or cleared; pos word aligned or lo"""
        m = If(k == z3.LShR(lo, bv(6)), high(start), ONES)
        new = d0.sel(k) | m if op == 'set' else d0.sel(k) & ~m
        return If(And(UGE(k, z3.LShR(lo, bv(6))), ULT(k, z3.LShR(pos, bv(6)))), new, d0.sel(k))

    def inv(ex, st, L):
        left = z(L.t('bits'))
        pos = hi - left
        d = st.mem[e.r['d'].id]
        c = L['curr']
        n = 'set' if op == 'set' else 'clr'
        return [c.reg is e.r['d'] and And(c.sub == 0, c.idx == z3.LShR(pos, bv(6))), L.t('size') == start + cnt,
                ULE(left, z(cnt)), Or(pos == lo, pos & 63 == 0),
                z(L.t('bits_to_' + n)) == 64 - (pos & 63), L.t('mask_to_' + n) == ONES << (pos & 63),
                Forall('w', lambda k: d.sel(k) == upto(k, pos))]
    ex.loops[('bfdev_bitmap_comp_' + op, 0)] = LoopSpec(inv=inv, decreases=lambda ex, st, L: z(L.t('bits')))

    def fin(s, r):
        i = fresh('i')
        s.hint('w', z3.LShR(i, bv(6)))
        inside = And(UGE(i, lo), ULT(i, hi))
        before = bit(d0.sel, i)
        want = Or(inside, before) if op == 'set' else And(Not(inside), before)
        ex.prove(s, Imp(ULT(i, e.nw << 6), bit(s.mem[e.r['d'].id].sel, i) == want), 'exactly the range changes')
    ex.run(st, 'bfdev_bitmap_comp_' + op, [e.p('d'), start, cnt], fin)


TASKS = [('%s%s' % (op, ' in place' if al else ''), lambda T, op=op, al=al: logic(T, op, al))
         for op in ('and', 'andnot', 'or', 'xor', 'complement') for al in ((None, 'a', 'b') if op != 'complement' else (None, 'a'))] + \
    [(op, lambda T, op=op: compare(T, op)) for op in ('equal', 'or_equal', 'intersects')] + [('replace', replace)] + \
    [('%s%s' % (op, ' in place' if al else ''), lambda T, op=op, al=al: shift(T, op, al)) for op in ('shl', 'shr') for al in (None, 'a')] + \
    [(op, lambda T, op=op: rng(T, op)) for op in ('set', 'clr')]
