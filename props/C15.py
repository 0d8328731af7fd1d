"""Double-word arithmetic: macros as functions, then src/dword.c over their contracts."""
from .lib import *

TU, TU2 = '/verif/harness/tu_dword.c', '/verif/harness/tu_dword2.c'
HARNESS = dict(src='h_C15.c', what='all macros and both divisions against 128-bit compiler arithmetic', bound='3.2 million operand tuples biased to word edges')
BOUNDED = 'nothing beyond re-checking the contracts on concrete runs'
W = 1 << 64
ASSUMPTIONS = ['the override points of dword.h (#ifndef) expand to the same macro text when not overridden; the check proves the generic macros and, separately, dword.c over their contracts']
U = lambda t: z3.BV2Int(t)


def out(ex, st):
    return ex.region(st, 'cells', 's', bv(16), content={0: (8, fresh('s0')), 8: (8, fresh('s1'))})


def got(ex, s, R):
    return term(ex.cells_get(s, R, 0)), term(ex.cells_get(s, R, 8))


def addsub(T):
    ex = T.ex(TU)
    for n in ('v_addd', 'v_subd', 'v_addd_alias', 'v_subd_alias'):
        st = State()
        R = out(ex, st)
        a = [fresh(x) for x in ('ah', 'al', 'bh', 'bl')]
        for k, x in zip(('ah', 'al', 'bh', 'bl'), a):
            ex.inputs[k] = x

        def done(s, r, R=R, a=a, n=n):
            lo, hi = got(ex, s, R)
            x, y = z3.Concat(a[0], a[1]), z3.Concat(a[2], a[3])
            ex.prove(s, z3.Concat(hi, lo) == (x + y if 'add' in n else x - y), n + ': exact modulo 2^128')
        ex.run(st, n, [Ptr(R)] + a, done)


def mul(T):
    for n in ('v_mul', 'v_mul_alias'):
        ex = T.ex(TU)
        ex.ints = True
        st = State()
        R = out(ex, st)
        a, b = fresh('a'), fresh('b')
        ex.inputs.update(a=a, b=b)

        def done(s, r, R=R, a=a, b=b):
            lo, hi = got(ex, s, R)
            ex.prove(s, U(hi) * W + U(lo) == U(a) * U(b), 'product exact')
        ex.run(st, n, [Ptr(R), a, b], done)


def half(q, rem):
    """the intermediate remainder (dividend of the second division by the divisor's upper
    half) and the two digits of the quotient"""
    seen, mids, st = set(), [], [rem, q]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if t.decl().kind() in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I, z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and t.arg(0).num_args() \
                and not any(t.arg(0).eq(m) for m in mids):
            mids.append(t.arg(0))
        st += t.children()
    if len(mids) != 1 or q.decl().kind() != z3.Z3_OP_BOR or q.num_args() != 2:
        return None
    for up, low in ((q.arg(0), q.arg(1)), (q.arg(1), q.arg(0))):
        if not z3.is_true(z3.simplify(z3.Extract(31, 0, up) == 0)):
            continue
        return mids[0], up, low
    return None


def mentions(f, v):
    seen, st = set(), [f]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if t.eq(v):
            return True
        st += t.children()
    return False


def qrnnd(T):
    B = 1 << 32
    for n in ('v_div', 'v_div_alias'):
        ex = T.ex(TU)
        ex.ints = True
        st = State()
        R = out(ex, st)
        h, l, d = fresh('h'), fresh('l'), fresh('d')
        ex.inputs.update(h=h, l=l, d=d)
        st.assume(UGE(d, bv(1 << 63)), ULT(h, d))

        def done(s, r, R=R, ex=ex, h=h, l=l, d=d):
            q, rem = got(ex, s, R)
            exact = U(q) * U(d) + U(rem) == U(h) * W + U(l)
            p = half(q, rem)
            if p is None:
                ex.prove(s, U(rem) < U(d), 'remainder below the divisor')
                ex.prove(s, exact, 'quotient and remainder exact')
                return
            # first digit, then the second with the first step's results as arbitrary values
            mid, up, low = p
            q1 = z3.LShR(up, bv(32))
            first = [U(q1) * U(d) + U(mid) == U(h) * B + U(z3.LShR(l, bv(32))), U(mid) < U(d)]
            for f, w in zip(first, ('first digit exact', 'first remainder below the divisor')):
                ex.prove(s, f, w)
            M, Q1 = fresh('mid'), fresh('q1')
            t = State()
            sub = lambda f: z3.substitute(f, (mid, M), (up, Q1 << bv(32)))
            for f in s.pc:
                f = sub(f)
                if z3.is_expr(f) and not mentions(f, h):
                    t.assume(f)
            t.assume(ULT(M, d), ULT(Q1, bv(B)))
            r2, low2 = sub(rem), sub(low)
            second = [U(low2) < B, U(r2) < U(d), U(low2) * U(d) + U(r2) == U(M) * B + U(l & bv(B - 1))]
            for f, w in zip(second, ('second digit fits', 'remainder below the divisor', 'second digit exact')):
                ex.prove(t, f, w)
            x, y, m, hh, dd, rr, ll = z3.Ints('x y m hh dd rr ll')
            v = State()
            v.assume(x * dd + m == hh * B + ll / B, y * dd + rr == m * B + ll % B)
            ex.prove(v, (x * B + y) * dd + rr == hh * W + ll, 'digits compose to the exact quotient')
            v = State()
            A, L = fresh('up'), fresh('low')
            v.assume(z3.Extract(31, 0, A) == 0, ULT(L, bv(B)))
            ex.prove(v, (A | L) == z3.Concat(z3.Extract(63, 32, A), z3.Extract(31, 0, L)), 'quotient is its two digits')
        ex.run(st, n, [Ptr(R), h, l, d], done)


def contracts(ex, bound=None):
    """the two macros, as proved above"""
    def qr(ex, st, args, inst):
        pq, pr, h, l, d = args
        ex.prove(st, And(UGE(term(d), bv(1 << 63)), ULT(term(h), term(d))), 'normalised division: divisor normalised and above the upper word')
        q, r = fresh('q'), fresh('r')
        st.assume(ULT(r, term(d)), U(q) * U(term(d)) + U(r) == U(term(h)) * W + U(term(l)))
        # a consequence: the divisor is at least 2^63
        st.assume(U(q) * (1 << 63) <= U(q) * U(term(d)))
        ex.store(st, pq, q, ('i', 64))
        ex.store(st, pr, r, ('i', 64))

    def um(ex, st, args, inst):
        ph, pl, a, b = args
        h, l = fresh('mh'), fresh('ml')
        if bound is not None:
            # a consequence modulo 2^k: the second factor is a multiple of 2^k
            k = bound[2]
            ex.prove(st, z3.Extract(k - 1, 0, term(b)) == 0, 'second factor multiple of 2^k')
            l = z3.Concat(z3.BitVec('ml!%d' % k, 64 - k), z3.BitVecVal(0, k))
        st.assume(U(h) * W + U(l) == U(term(a)) * U(term(b)))
        if bound is not None:
            # a consequence of the exact product and the factors' bounds
            ka, kb, _ = bound
            ex.prove(st, And(U(term(a)) <= ka, U(term(b)) <= kb), 'factor bounds')
            st.assume(U(h) * W + U(l) <= ka * kb)
        ex.store(st, ph, h, ('i', 64))
        ex.store(st, pl, l, ('i', 64))
    ex.contracts['c_qrnnd'], ex.contracts['c_umul'] = qr, um


def inreg(ex, st, name, a, b):
    return ex.region(st, 'cells', name, bv(16), content={0: (8, a), 8: (8, b)})


def shifted(k, name='x'):
    """every word with exactly k leading zero bits"""
    low = [z3.BitVec(name, 63 - k)] if k < 63 else []
    parts = ([z3.BitVecVal(0, k)] if k else []) + [z3.BitVecVal(1, 1)] + low
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def udiv(T, ks):
    for k in ks:
        ex = T.ex(TU2)
        ex.ints = True
        contracts(ex)
        st = State()
        Q, R = out(ex, st), ex.region(st, 'cells', 'rem', bv(8), content={0: (8, fresh('r'))})
        n0, n1, d = fresh('n0'), fresh('n1'), shifted(k)
        S = inreg(ex, st, 'src', n0, n1)
        ex.inputs.update(n0=n0, n1=n1, d=d)

        def done(s, r, ex=ex, Q=Q, R=R, d=d, n0=n0, n1=n1):
            q0, q1 = got(ex, s, Q)
            rem = term(ex.cells_get(s, R, 0))
            ex.prove(s, (U(q1) * W + U(q0)) * U(d) + U(rem) == U(n1) * W + U(n0), 'dividend = quotient * divisor + remainder')
            ex.prove(s, U(rem) < U(d), 'remainder below the divisor')
        ex.run(st, 'bfdev_dword_generic_udiv', [Ptr(Q), Ptr(R), Ptr(S), d], done)


def lemmas(T):
    """the two consequences used in the contracts, for all integers"""
    ex = T.ex(TU2)
    a, b, A, B = z3.Ints('a b A B')
    st = State()
    st.assume(a >= 0, b >= 1 << 63)
    ex.prove(st, a * (1 << 63) <= a * b, 'multiplying by at least 2^63')
    st = State()
    st.assume(a >= 0, b >= 0, a <= A, b <= B)
    ex.prove(st, a * b <= A * B, 'product of bounds')
    for k in range(1, 64):
        st = State()
        x, q, h, l = z3.Ints('x q h l')
        m = 1 << k
        st.assume(h * W + l == a * (x * m), l == q * m + b, b >= 0, b < m)
        ex.prove(st, b == 0, 'a product with a multiple of 2^k is one')


QUICK = (None, 0, 1, 2, 15, 16, 31, 32, 33, 47, 48, 61, 62, 63)


def udivd(T, ks):
    """quick: 14 of the 65 normalisation cases; thorough: all"""
    for k in ks:
        if T.tier == 'quick' and k not in QUICK:
            continue
        ex = T.ex(TU2)
        ex.ints = ex.int_wraps = True
        contracts(ex, None if k in (None, 0) else ((2 << k) - 1, W - (1 << k), k))
        st = State()
        Q, R = out(ex, st), out(ex, st)
        n0, n1, d0 = fresh('n0'), fresh('n1'), fresh('d0')
        d1 = bv(0) if k is None else shifted(k)
        S, D = inreg(ex, st, 'src', n0, n1), inreg(ex, st, 'div', d0, d1)
        ex.inputs.update(n0=n0, n1=n1, d0=d0, d1=d1)
        if k is None:
            st.assume(d0 != 0)

            def one(ex, st, args, inst):
                q, r, s, d = args
                ex.prove(st, term(d) != 0, 'single-word division: divisor not zero')
                x0, x1, y = fresh('q0'), fresh('q1'), fresh('r')
                m0, m1 = (term(ex.load(st, ex.ptr_add(s, bv(o)), ('i', 64))) for o in (0, 8))
                st.assume((U(x1) * W + U(x0)) * U(term(d)) + U(y) == U(m1) * W + U(m0), ULT(y, term(d)))
                for p, o, v in ((q, 0, x0), (q, 8, x1), (r, 0, y)):
                    ex.store(st, ex.ptr_add(p, bv(o)), v, ('i', 64))
            ex.contracts['bfdev_dword_generic_udiv'] = one

        def done(s, r, ex=ex, Q=Q, R=R, d0=d0, d1=d1, n0=n0, n1=n1):
            q0, q1 = got(ex, s, Q)
            r0, r1 = got(ex, s, R)
            div = U(d1) * W + U(d0)
            ex.prove(s, (U(q1) * W + U(q0)) * div + U(r1) * W + U(r0) == U(n1) * W + U(n0), 'dividend = quotient * divisor + remainder')
            ex.prove(s, U(r1) * W + U(r0) < div, 'remainder below the divisor')
        ex.run(st, 'bfdev_dword_generic_udivd', [Ptr(Q), Ptr(R), Ptr(S), Ptr(D)], done)


CASES = list(QUICK) + [k for k in range(64) if k not in QUICK]
TASKS = [('normalised division', qrnnd)] + [
    ('two words by two %d' % i, lambda T, i=i: udivd(T, CASES[i::12])) for i in range(12)] + [
    ('two words by one %d' % i, lambda T, i=i: udiv(T, range(i, 64, 4))) for i in range(4)] + [
    ('add and subtract', addsub), ('multiply', mul), ('consequences used', lemmas)]
