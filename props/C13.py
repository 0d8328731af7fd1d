"""Bit searches: src/bitwalk.c and the single-word header variants."""
from .lib import *
TU, SRC = '/verif/harness/tu_bitmap.c', '/repo/src/bitwalk.c'
HARNESS = dict(src='h_C13.c', what='all searches and walks on exact-size buffers against a bit-by-bit search', bound='sizes up to 512, 60,000 bitmaps per job')
ASSUMPTIONS = ['sizes are at most 2^32-64 (the unsigned int position cannot wrap); inversion masks are all-zero or all-one, as every caller passes']
BOUNDED = 'the for-each walks of bitwalk.h (composition of the proved searches) run in the harness only'
ONES = bv((1 << 64) - 1)


def find_contracts(ex):
    """single-word searches, as proved by the C14 check"""
    def h(first):
        def f(ex, st, args, inst):
            v = term(args[0])
            ex.prove(st, v != 0, 'word search on a nonzero word')
            r = fresh('pos')
            st.assume(ULT(r, bv(64)), z3.LShR(v, r) & 1 == 1)
            st.assume(v & ((bv(1) << r) - 1) == 0 if first else z3.LShR(z3.LShR(v, r), bv(1)) == 0)
            return z3.Extract(31, 0, r)
        return f
    ex.contracts['bfdev_ffsuf'], ex.contracts['bfdev_flsuf'] = h(True), h(False)

    def z(first):
        g = h(first)
        return lambda ex, st, args, inst: g(ex, st, [~term(args[0])], inst)
    ex.contracts['bfdev_ffzuf'], ex.contracts['bfdev_flzuf'] = z(True), z(False)


class Env:
    def __init__(e, T, two, small=None):
        e.ex = T.ex(TU, SRC)
        e.st = st = State()
        find_contracts(e.ex)
        e.n, e.inv, e.swap, e.start = fresh('n', 32), fresh('inv'), fresh('swap', 1), fresh('start', 32)
        e.ex.inputs.update(n=e.n, inv=e.inv, swap=e.swap, start=e.start)
        st.assume(ULE(e.n, z3.BitVecVal((1 << 32) - 64, 32)), Or(e.inv == 0, e.inv == ONES))
        e.N = z3.ZeroExt(32, e.n)
        e.nw = z3.LShR(e.N + 63, bv(6))
        e.A = e.ex.region(st, 'arr', 'a', e.nw, 8)
        e.B = e.ex.region(st, 'arr', 'b', e.nw, 8) if two else None
        e.a0 = st.mem[e.A.id]
        e.b0 = st.mem[e.B.id] if two else None

    def raw(e, k):
        v = e.a0.sel(k)
        if e.b0 is not None:
            v = v & e.b0.sel(k)
        return v ^ e.inv

    def word(e, k):
        return If(e.swap, bswap64(e.raw(k)), e.raw(k))

    def bit(e, i):
        return z3.Extract(0, 0, z3.LShR(e.word(z3.LShR(i, bv(6))), i & 63)) == 1

    def first_from(e, s, r, lo):
        """r is the lowest matching position in [lo, n), or n"""
        R = z3.ZeroExt(32, term(r))
        ex = e.ex
        ex.prove(s, ULE(R, e.N), 'result within the size')
        s2 = s.copy()
        s2.hint('w', z3.LShR(R, bv(6)))
        ex.prove(s2, Imp(R != e.N, And(UGE(R, lo), e.bit(R))), 'the returned position matches')
        i = fresh('i')
        s.hint('w', z3.LShR(i, bv(6)))
        ex.prove(s, Imp(And(ULE(lo, i), ULT(i, R)), Not(e.bit(i))), 'no earlier position matches')

    def last_to(e, s, r, hi):
        """r is the highest matching position in [0, hi], or n"""
        R = z3.ZeroExt(32, term(r))
        ex = e.ex
        s2 = s.copy()
        s2.hint('w', z3.LShR(R, bv(6)))
        ex.prove(s2, Or(R == e.N, And(ULE(R, hi), ULT(R, e.N), e.bit(R))), 'the returned position matches')
        i = fresh('i')
        s.hint('w', z3.LShR(i, bv(6)))
        ex.prove(s, Imp(And(ULE(i, hi), Or(R == e.N, UGT(i, R))), Not(e.bit(i))), 'no later position matches')


def bswap64(v):
    return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(8)])


def low(n):
    return z3.LShR(ONES, z3.ZeroExt(32, -n & 63))


def high(n):
    return ONES << z3.ZeroExt(32, n & 63)


def specs(e):
    ex = e.ex
    z = lambda t: z3.ZeroExt(32, t)

    def f_first(ex, st, L):
        p, base = L['block'], z(L.t('base'))
        return [p.reg is e.A and p.idx == z3.LShR(base, bv(6)), p.reg is e.A and p.sub == 0, base & 63 == 0, ULT(base, e.N + 64),
                Forall('w', lambda k: Imp(ULT(k, z3.LShR(base, bv(6))), e.word(k) == 0))]

    def f_last(ex, st, L):
        base, mask = z(L.t('base')), L.t('mask')
        lw = e.nw - 1
        return [ULT(base, e.nw), mask == If(base == lw, low(e.n), ONES),
                Forall('w', lambda k: Imp(And(UGT(k, base), ULT(k, e.nw)), e.word(k) & If(k == lw, low(e.n), ONES) == 0))]

    def walk(down):
        def f(ex, st, L):
            start, mask, value = z(L.t('start')), L.t('mask'), L.t('value')
            k0, k = z3.LShR(z(e.start), bv(6)), z3.LShR(start, bv(6))
            m = low(e.start + 1) if down else high(e.start)
            M = If(e.swap, bswap64(m), m)
            done = (lambda j: And(UGT(j, k), ULE(j, k0))) if down else (lambda j: And(UGE(j, k0), ULT(j, k)))
            return [start & 63 == 0, ULT(start, e.N), ULE(k, k0) if down else UGE(k, k0), mask == M,
                    value == e.raw(k) & If(k == k0, M, ONES),
                    Forall('w', lambda j: Imp(done(j), e.raw(j) & If(j == k0, M, ONES) == 0))]
        return f
    ex.loops[('bfdev_comp_find_first_bit', 0)] = LoopSpec(inv=f_first, decreases=lambda ex, st, L: e.N + 64 - z(L.t('base')))
    ex.loops[('bfdev_comp_find_last_bit', 0)] = LoopSpec(inv=f_last, decreases=lambda ex, st, L: z(L.t('base')))
    ex.loops[('bfdev_comp_find_next_bit', 0)] = LoopSpec(inv=walk(False), decreases=lambda ex, st, L: e.N - z(L.t('start')))
    ex.loops[('bfdev_comp_find_prev_bit', 0)] = LoopSpec(inv=walk(True), decreases=lambda ex, st, L: z(L.t('start')))


def comp(T):
    for fn in ('first', 'last', 'next', 'prev'):
        for two in ((False, True) if fn in ('next', 'prev') else (False,)):
            e = Env(T, two)
            specs(e)
            name = 'bfdev_comp_find_%s_bit' % fn
            tail = [e.inv, e.swap]
            if fn == 'first':
                e.ex.run(e.st, name, [Ptr(e.A), e.n] + tail, lambda s, r: e.first_from(s, r, bv(0)))
            elif fn == 'last':
                def fin(s, r, e=e):
                    if not e.ex.feasible(s, e.n != 0):
                        e.ex.prove(s, r == 0, 'empty bitmap')
                        return
                    e.last_to(s, r, e.N - 1)
                e.ex.run(e.st, name, [Ptr(e.A), e.n] + tail, fin)
            else:
                b = Ptr(e.B) if two else NULL
                S = z3.ZeroExt(32, e.start)

                def fin(s, r, e=e, S=S, fn=fn):
                    if not e.ex.feasible(s, ULT(e.start, e.n)):
                        e.ex.prove(s, r == e.n, 'start beyond the size')
                        return
                    (e.first_from if fn == 'next' else e.last_to)(s, r, S)
                e.ex.run(e.st, name, [Ptr(e.A), b, e.n, e.start] + tail, fin)


def inline(T):
    for what in ('bit', 'zero', 'and_bit'):
        for fn in ('first', 'last', 'next', 'prev'):
            if what == 'and_bit' and fn in ('first', 'last'):
                continue
            e = Env(T, what == 'and_bit')
            e.st.assume(e.inv == (ONES if what == 'zero' else 0), Not(e.swap))
            specs(e)
            args = [Ptr(e.A)] + ([Ptr(e.B)] if e.B else []) + [e.n]
            S = z3.ZeroExt(32, e.start)

            def fin(s, r, e=e, S=S, fn=fn):
                if fn in ('next', 'prev') and not e.ex.feasible(s, ULT(e.start, e.n)):
                    return e.ex.prove(s, r == e.n, 'start beyond the size')
                if not e.ex.feasible(s, e.n != 0):
                    return e.ex.prove(s, r == 0, 'empty bitmap')
                {'first': lambda: e.first_from(s, r, bv(0)), 'last': lambda: e.last_to(s, r, e.N - 1),
                 'next': lambda: e.first_from(s, r, S), 'prev': lambda: e.last_to(s, r, S)}[fn]()
            e.ex.run(e.st, 'w_find_%s_%s' % (fn, what), args + ([e.start] if fn in ('next', 'prev') else []), fin)


TASKS = [('out of line searches', comp), ('header searches', inline)]
