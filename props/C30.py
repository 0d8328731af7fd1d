"""Bounded formatting and argument splitting."""
from .lib import *
from .listlib import B64, INT
SRC, AV = 'src/scnprintf.c', 'src/argv.c'
HARNESS = dict(src='h_C30.c', what='formatting of every length around the buffer size, failing conversions, argument strings of arbitrary bytes', bound='buffers below 40 bytes, strings below 40 bytes, 20000 cases per job')
BOUNDED = 'nothing beyond concrete re-checks'
ASSUMPTIONS = ['vsnprintf, strspn, strcspn, strlen and strcpy behave as the C standard says', 'argument strings are shorter than 2^29 bytes', 'buffer sizes given to the formatter are at most 2^31 - 1 when the result is truncated (the result is an int)']
TRUSTED = ['vsnprintf', 'strspn', 'strcspn', 'strlen', 'strcpy']


def t_scn(fn):
    def t(T):
        ex = T.ex(SRC)
        st = State()
        size = fresh('size')
        m0 = Base('buf', 8)
        R = ex.region(st, 'arr', 'buf', size, 1, content=m0)
        fmt = fresh('fmt')
        out, r = Base('text', 8), fresh('r', 32)     # the whole formatted text and its length, negative: refused
        ex.inputs.update(size=size, result=r)
        cnt = []

        def vsn(ex, st, a, inst):
            cnt.append(1)
            b, n, f = a[0], term(a[1]), term(a[2])
            ex.prove(st, b.reg is R and And(b.idx == 0, n == size, f == fmt), 'formats into the given buffer')
            ex.prove(st, n != 0, 'never into an empty buffer')
            k = z3.SignExt(32, r)
            old = st.mem[R.id]
            junk = Base('junk', 8)
            stored = umin(k, n - 1)
            st.mem[R.id] = FnArr(lambda i: If(r < 0, If(ULT(i, n), junk.sel(i), old.sel(i)),
                                                 If(ULT(i, stored), out.sel(i), If(i == stored, bv(0, 8), old.sel(i)))), 8)
            return r
        for nm in ('vsnprintf', '__vsnprintf_chk'):
            ex.contracts[nm] = vsn
        for nm in ('llvm.va_start', 'llvm.va_end', 'llvm.va_start.p0', 'llvm.va_end.p0'):
            ex.contracts[nm] = lambda ex, st, a, inst: None
        st.assume(Imp(And(r >= 0, UGE(z3.SignExt(32, r), size)), ULE(size, bv(2**31))))

        def done(s, ret):
            ret = term(ret)
            m = s.mem[R.id]
            i = fresh('i')
            ok = z3.SignExt(32, r)
            n = z3.SignExt(32, ret)
            ex.prove(s, Imp(size == 0, And(ret == 0, z3.BoolVal(m is m0))), 'an empty buffer is left alone')
            ex.prove(s, Imp(size != 0, And(ret >= 0, ULT(n, size))), 'the result counts characters that fit')
            ex.prove(s, Imp(size != 0, m.sel(n) == 0), 'terminated at the returned length')
            ex.prove(s, Imp(And(size != 0, r >= 0), n == umin(ok, size - 1)), 'as many characters as fit')
            ex.prove(s, Imp(And(size != 0, r >= 0, ULT(i, n)), m.sel(i) == out.sel(i)), 'the text itself')
            ex.prove(s, Imp(And(size != 0, r < 0), ret == 0), 'a refused conversion stores nothing')
            ex.prove(s, Imp(UGE(i, size), m.sel(i) == m0.sel(i)), 'nothing beyond the buffer')
        args = [Ptr(R), size, Ptr(None, fmt)]
        ex.run(st, fn, args + ([Ptr(None, fresh('args'))] if fn == 'bfdev_vscnprintf' else []), done)
    return t


def strings(T, ints=True):
    """a string S of length n, word counting W and the C string functions"""
    ex = T.ex(AV)
    ex.ints = ints
    st = State()
    n = fresh('length')
    st.assume(ULT(n, bv(2**29)))
    S_ = Base('args', 8)
    ex.inputs['length'] = n
    W = z3.Function('words', B64, z3.BitVecSort(32))     # words that begin before a position
    sep = lambda c: Or(c == 32, c == 9, c == 13, c == 10)
    word = lambda k: And(ULT(k, n), Not(sep(S_.sel(k))))
    start = lambda k: And(word(k), Or(k == 0, Not(word(k - 1))))
    st.assume(W(bv(0)) == 0, S_.sel(n) == 0)
    st.assume(Forall('w', lambda k: And(Imp(ULT(k, n), S_.sel(k) != 0), Imp(ULE(k, n), W(k + 1) == W(k) + If(start(k), bv(1, 32), bv(0, 32))))))
    # two lemmas about counting, by induction on the position
    k, j = fresh('k'), fresh('j')
    h = lambda k: If(And(k != 0, word(k - 1)), bv(1), bv(0))
    Z = lambda k: z3.ZeroExt(32, W(k))
    q = st.copy()
    q.frames = []
    q.hint('w', k, k - 1)
    q.assume(ULE(k, n), ULE(2 * Z(k), k + h(k)))
    ex.prove(q, ULE(2 * Z(k + 1), k + 1 + h(k + 1)), 'words are separated (step)')
    st.assume(Forall('w', lambda k: Imp(ULE(k, n + 1), ULE(2 * Z(k), k + 1))))
    q = st.copy()
    q.frames = []
    q.hint('w', k, j)
    q.assume(ULE(j, k), ULE(k, n), ULE(W(j), W(k)))
    ex.prove(q, ULE(W(j), W(k + 1)), 'counting is monotone (step)')
    st.assume(Forall(['m', 'm'], lambda j, k: Imp(And(ULE(j, k), ULE(k, n + 1)), ULE(W(j), W(k))), widths=[64, 64]))

    def setof(st, p):
        c = st.mem[p.reg.id]
        out = []
        for i in range(64):
            v = cval(S(ex.load(st, ex.ptr_add(p, bv(i)), ('i', 8))))
            if v == 0:
                return out
            assert v is not None
            out.append(v)
        raise AssertionError

    def span(neg):
        def f(ex, st, a, inst):
            s, set_ = a[0], setof(st, a[1])
            M = st.mem[s.reg.id]
            base = bv(0)
            p = s.idx
            ex.prove(st, ULE(p, n), 'inside the string')
            o = fresh('span')
            at = lambda k: M.sel(base + k)
            inset = lambda c: Or(*[c == v for v in set_])
            hit = (lambda c: And(c != 0, Not(inset(c)))) if neg else (lambda c: And(c != 0, inset(c)))
            st.hint('w', p, p + o, p + o - 1, p - 1)
            st.hint('m', p, p + o)
            # the string ends at the first zero byte, which is at n at the latest
            ex.prove(st, at(n) == 0, 'terminated')
            st.assume(ULE(o, n - p), Not(hit(at(p + o))), Forall('w', lambda k: Imp(And(ULE(p, k), ULT(k, p + o)), hit(at(k)))))
            # no word begins inside a run of separators, nor inside a run of word characters after its first
            a0 = p + 1 if neg else p
            q, k = st.copy(), fresh('k')
            q.hint('w', k, k - 1)
            q.assume(ULE(a0, k), ULT(k, p + o), W(k) == W(a0))
            ex.prove(q, W(k + 1) == W(a0), 'no further word begins inside a span (step)')
            st.assume(Imp(ULE(a0, p + o), W(p + o) == W(a0)))
            return o
        return f
    ex.contracts['strspn'] = span(False)
    ex.contracts['strcspn'] = span(True)
    return ex, st, n, S_, W, word, start


def t_count(T):
    ex, st, n, S_, W, word, start = strings(T)
    R = ex.region(st, 'arr', 'args', n + 1, 1, content=S_, const=True)
    st.ghost.update(R=R)

    def inv(ex, st, L):
        p = L['args'].idx
        st.hint('w', p, p - 1, n)
        st.hint('m', p, n)
        return [ULE(p, n), L.t('argc') == W(p), Or(p == 0, Not(word(p)))]
    ex.loops[('bfdev_argv_count', 0)] = LoopSpec(inv=inv, decreases=lambda ex, st, L: n - L['args'].idx)
    ex.run(st, 'bfdev_argv_count', [Ptr(R)], lambda s, r: ex.prove(s, term(r) == W(n), 'counts the words'))


def t_split(T):
    for fail in (True,):
        ex, st, n, S_, W, word, start = strings(T)
        R = ex.region(st, 'arr', 'args', n + 1, 1, content=S_, const=True)
        argc = W(n)
        base = 8 * (z3.ZeroExt(32, argc) + 1)
        st.ghost.update(R=R)
        st.hint('w', n)
        st.hint('m', n)
        got = []

        def make(ex, st, size, kind=None, inst=None):
            ex.prove(st, size == base + n + 1, 'one block for the list and the text')
            # the block as two parts, the list and the text behind it; going from one to the
            # other is adding exactly the size of the list
            B = ex.region(st, 'arr', 'list', z3.ZeroExt(32, argc) + 1, 8, content=Base('list', 64), w=64)
            X = ex.region(st, 'arr', 'text', n + 1, 1, content=Base('text', 8))
            got[:] = [B, X]
            return Ptr(B)

        def part(ex_st, p, off):
            if got and p.reg is got[0]:
                ex.prove(ex_st, And(p.idx == 0, off == base), 'the text begins right behind the list')
                return Ptr(got[1])
        ex.gep_hook = part
        ex.prove(st, ULT(argc, bv(2**28 + 1, 32)), 'the list size does not wrap')
        alloc = alloc_contracts(ex, make, can_fail=fail)

        def count(ex, st, a, inst):
            ex.prove(st, a[0].reg is R and a[0].idx == 0, 'counts this string')
            return W(n)
        ex.contracts['bfdev_argv_count'] = count
        ex.contracts['strlen'] = lambda ex, st, a, inst: (ex.prove(st, a[0].reg is R and a[0].idx == 0, 'length of this string'), n)[1]

        def strcpy(ex, st, a, inst):
            d, s = a[0], a[1]
            ex.prove(st, s.reg is R and And(s.idx == 0, z3.BoolVal(d.reg is got[-1]), d.idx == 0), 'copies the string behind the list')
            st.mem[d.reg.id] = Copy(st.mem[d.reg.id], d.idx, n + 1, S_, s.idx)
            return d
        ex.contracts['strcpy'] = strcpy
        ends = lambda k: And(k != 0, Not(word(k)), word(k - 1))

        def text(M, b):
            return Forall('w', lambda p: Imp(ULE(p, n), M.sel(p) == If(And(ULT(p, b), ends(p)), bv(0, 8), S_.sel(p))), label='text', seeds=lambda st, p: st.hint('w', p - 1))

        def entries(M, X, b):
            return Forall('w|m', lambda p: Imp(And(ULT(p, b), start(p)), M.sel(z3.ZeroExt(32, W(p))) == Ptr(X, idx=p).term()), label='entries',
                          seeds=lambda st, p: (st.hint('w', p, p - 1), st.hint('m', p, p + 1)))

        def inv(ex, st, L):
            B, X = got
            c, b = L.t('count'), L['block'].idx
            st.ghost['b'] = b
            st.hint('w', b, b - 1, n)
            st.hint('m', b, b - 1, n)
            return [ULE(b, n + 1), L['block'].reg is X, ULE(c, argc), c == W(b), Or(b == 0, Not(word(b - 1))), text(st.mem[X.id], b), entries(st.mem[B.id], X, b)]
        ex.loops[('bfdev_argv_split', 0)] = LoopSpec(inv=inv, decreases=lambda ex, st, L: argc - L.t('count'))
        AP = ex.region(st, 'cells', 'argcp', 4)

        def done(s, r):
            if isinstance(r, Ptr) and r.reg is not None:
                B, X = got
                ex.prove(s, r.reg is B and r.idx == 0, 'returns the list')
                # behind the last word there are only separators: by induction on the position
                b = s.ghost['b']
                q, k = s.copy(), fresh('k')
                q.hint('w', k, k - 1, b)
                q.hint('m', k, k + 1, b, n)
                q.assume(ULE(b, k), ULT(k, n), Imp(k != b, Not(word(k - 1))))
                ex.prove(q, Not(word(k)), 'no word behind the last (step)')
                s.assume(Forall('w', lambda k: Imp(ULE(b, k), Not(word(k)))))
                ex.prove(s, text(s.mem[X.id], n + 1), 'result')
                ex.prove(s, entries(s.mem[B.id], X, n), 'result')
                ex.prove(s, s.mem[B.id].sel(z3.ZeroExt(32, argc)) == 0, 'the list is terminated')
                ex.prove(s, ex.cells_get(s, AP, 0) == argc, 'number of words')
            else:
                ex.prove(s, term(r) == 0, 'nothing on failure')
                ex.prove(s, bool(s.ghost.get('oom')), 'only when the allocation failed')
        ex.run(st, 'bfdev_argv_split', [NULL, Ptr(R), Ptr(AP)], done)


TASKS = [('vscnprintf', t_scn('bfdev_vscnprintf')), ('scnprintf', t_scn('bfdev_scnprintf')), ('count', t_count), ('split', t_split)]
