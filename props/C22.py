"""Allocator front end and the fixed pool."""
from .lib import *

SRC, POOL, TU = 'src/allocator.c', 'src/allocpool.c', '/verif/harness/tu_alloc.c'
HARNESS = dict(src='h_C22.c', what='front end with recording callbacks, the default allocator, and pool histories with edge sizes and alignments', bound='20000 cases per job')
ASSUMPTIONS = ['malloc, calloc, realloc and free behave as the C library specifies (calloc zeroes)', 'the pool block does not wrap around the address space; alignments are powers of two or zero',
               'each block given to the pool free function was handed out and not yet freed', 'bfdev_alloc_default is left as initialised']
BOUNDED = 'nothing beyond concrete re-checks'


def P(x):
    return Ptr(None, x)


OPS = ('alloc', 'zalloc', 'realloc', 'free')


def setup(T, cfg):
    """cfg: 'null' (no allocator), 'noops' (no operations), 'none' (all operations missing), 'custom'"""
    ex = T.ex(SRC, TU)
    st = State()
    calls = st.ghost['calls'] = []
    pd = fresh('pdata')
    st.ghost['calls'] = ()

    def rec(kind, name):
        def f(ex, st, a, inst):
            r = fresh('block')
            st.ghost['calls'] = st.ghost['calls'] + ((kind, name, [term(x) for x in a], r),)
            return None if name == 'free' else P(r)
        return f
    for n in OPS:
        ex.contracts['u_' + n] = rec('custom', n)
    ex.contracts['malloc'] = lambda ex, st, a, i: rec('libc', 'alloc')(ex, st, a, i)
    ex.contracts['calloc'] = rec('libc', 'zalloc')
    ex.contracts['realloc'] = rec('libc', 'realloc')
    ex.contracts['free'] = rec('libc', 'free')
    for g, k in (('bfdev_alloc_default', 2), ('bfdev_alloc_default_ops', 4)):
        p = ex.global_ptr(st, g, ex.mods[0])
        st.mem[p.reg.id] = {8 * i: (8, NULL) for i in range(k)}
    ops = ex.region(st, 'cells', 'ops', 32, content={8 * i: (8, Fn('u_' + n) if cfg == 'custom' else NULL) for i, n in enumerate(OPS)})
    al = ex.region(st, 'cells', 'alloc', 16, content={0: (8, NULL if cfg == 'noops' else Ptr(ops)), 8: (8, P(pd))})
    return ex, st, NULL if cfg == 'null' else Ptr(al), pd


def t_front(fn, arr):
    def t(T):
        for cfg in ('null', 'noops', 'none', 'custom'):
            ex, st, al, pd = setup(T, cfg)
            n, m, blk = fresh('n'), fresh('m'), fresh('block')
            ex.inputs.update(n=n, m=m)
            args = [al]
            if fn in ('realloc', 'free'):
                args.append(P(blk))
            if fn != 'free':
                args += [n, m] if arr else [n]
            over = z3.Not(z3.BVMulNoOverflow(n, m, False)) if arr else z3.BoolVal(False)
            size = n * m if arr else n

            def done(s, r, cfg=cfg, ex=ex, pd=pd):
                cs = s.ghost['calls']
                ex.prove(s, len(cs) <= 1, 'at most one request')
                if fn == 'free':
                    want = None
                    ex.prove(s, (blk == 0) == z3.BoolVal(not cs), 'frees every block but none')
                    if cs:
                        ex.prove(s, cs[0][1] == 'free' and And(cs[0][2][0] == blk), 'frees that block')
                elif not cs:
                    ex.prove(s, And(term(r) == 0, Or(over, And(size == 0, Or(blk == 0, fn != 'realloc')))), 'refuses only an overflowing or empty request')
                else:
                    k, nm, a, res = cs[0]
                    ex.prove(s, Not(over), 'an overflowing request reaches no allocator')
                    if fn == 'realloc':
                        kind = {'alloc': blk == 0, 'realloc': And(blk != 0, size != 0), 'free': And(blk != 0, size == 0)}.get(nm, False)
                        ex.prove(s, kind, 'resizes a block, allocates without one, frees for no size')
                        if nm != 'alloc':
                            ex.prove(s, a[0] == blk, 'of that block')
                    else:
                        kind = nm == {'malloc': 'alloc', 'zalloc': 'zalloc'}[fn]
                        ex.prove(s, kind, 'a zeroed block exactly when asked for one')
                    if nm == 'free':
                        ex.prove(s, term(r) == 0, 'no block left')
                    else:
                        if nm == 'zalloc' and k == 'libc':
                            got = a[0] * a[1]
                            ex.prove(s, a[0] == 1, 'one object')
                        else:
                            got = a[1] if nm == 'realloc' else a[0]
                        ex.prove(s, got == size, 'asks for exactly the size')
                        ex.prove(s, And(size != 0, term(r) == res), 'returns what the allocator gave')
                if cs:
                    ex.prove(s, cs[0][0] == ('custom' if cfg == 'custom' else 'libc'), 'the configured allocator is used')
                    if cs[0][0] == 'custom':
                        ex.prove(s, cs[0][2][-1] == pd, 'with its own data')
            ex.run(st, ('v_%s_array' if arr else 'bfdev_%s') % fn, args, done)
    return t


def pool_state(T):
    ex = T.ex(POOL, TU)
    st = State()
    b, size, last, cnt = fresh('block'), fresh('size'), fresh('last'), fresh('count')
    R = ex.region(st, 'cells', 'pool', 32, content={0: (8, P(b)), 8: (8, size), 16: (8, last), 24: (8, cnt)})
    ex.inputs.update(block=b, size=size, last=last, count=cnt)
    # invariant: every block out lies in [block, block + last)
    st.assume(b != 0, UGT(0 - b, size), ULE(last, size), Imp(cnt == 0, last == 0), ULT(cnt, bv(2**64 - 1)))
    return ex, st, R, b, size, last, cnt


def t_palloc(T):
    """every power-of-two alignment, and none"""
    for a in [0] + [1 << k for k in range(64)]:
        one_palloc(T, bv(a))


def one_palloc(T, al):
    ex, st, R, b, size, last, cnt = pool_state(T)
    n = fresh('n')
    ex.ints = True
    ex.inputs.update(n=n, align=al)

    def done(s, r):
        r = term(r)
        g = lambda o: term(ex.cells_get(s, R, o))
        ex.prove(s, And(g(0) == b, g(8) == size), 'the pool keeps its bounds')
        eff = If(UGT(al, bv(8)), al, bv(8))
        off = r - b
        ok, no = s.copy(), s.copy()
        ok.assume(r != 0)
        no.assume(r == 0)
        if ex.feasible(ok):
            ex.prove(ok, And(n != 0, UGE(off, last), ULE(off, size), ULE(n, size - off)), 'inside the pool, beyond every block handed out')
            ex.prove(ok, And(r & (eff - 1) == 0), 'aligned')
            ex.prove(ok, And(g(16) == off + n, g(24) == cnt + 1), 'the block is counted')
            ex.prove(ok, ULE(g(16), size), 'the block is accounted for')
        if ex.feasible(no):
            up = z3.ZeroExt(8, b + last) + z3.ZeroExt(8, eff - 1) & ~z3.ZeroExt(8, eff - 1)
            ex.prove(no, And(g(16) == last, g(24) == cnt), 'a refusal changes nothing')
            wide = Or(n == 0, UGT(up + z3.ZeroExt(8, n), z3.ZeroExt(8, b) + z3.ZeroExt(8, size)))
            ex.prove(no, wide, 'refused only when there is no room')
    ex.run(st, 'bfdev_allocpool_alloc', [Ptr(R), n, al], done)


def t_pfree(T):
    for fn in ('bfdev_allocpool_free', 'v_reset'):
        ex, st, R, b, size, last, cnt = pool_state(T)
        if fn != 'v_reset':
            st.assume(cnt != 0)

        def done(s, r):
            g = lambda o: term(ex.cells_get(s, R, o))
            c = cnt - 1 if fn != 'v_reset' else bv(0)
            ex.prove(s, And(g(0) == b, g(8) == size, g(24) == c, g(16) == If(c == 0, bv(0), last)), 'starts over exactly when no block is out')
        ex.run(st, fn, [Ptr(R)] + ([P(fresh('blk'))] if fn != 'v_reset' else []), done)


TASKS = [(('%s%s' % (f, '-array' if a else '')), t_front(f, a)) for f in ('malloc', 'zalloc', 'realloc', 'free') for a in (False, True) if not (a and f == 'free')] + [('pool-alloc', t_palloc), ('pool-free', t_pfree)]
