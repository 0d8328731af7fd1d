"""Dynamic array: a sequence; capacity always covers length; failure leaves it as it was."""
from .lib import *

SN = 'struct.bfdev_array'


def setup(T, empty, src='src/array.c'):
    ex = T.ex(src)
    m = ex.mods[0]
    st = State()
    cells, idx, cap = fresh('cells'), fresh('length'), fresh('capacity')
    ex.nl = cells
    ex.inputs.update({'cells': cells, 'length': idx, 'capacity': cap})
    st.assume(UGE(cells, bv(1)), ULE(cells, bv(1 << 63)))
    o = offs(m, SN)
    ex.nl_term(st, 'm', cap)
    # the reserved block exists: its byte size does not wrap
    st.assume(Not(ex.ovfE(cap)))
    ex.assumed.add('the element size is at most 2^63')
    if empty:
        st.assume(idx == 0, cap == 0)
        D, dp = None, NULL
    else:
        st.assume(ULE(idx, cap), UGE(cap, bv(1)))
        D = ex.region(st, 'arr', 'data', cap, cells, w=64)
        dp = Ptr(D)
    F = ex.struct_region(st, m, SN, 'array', {o[1]: cap, o[2]: idx, o[3]: cells, o[4]: dp})

    class E:
        pass
    e = E()
    e.__dict__.update(ex=ex, m=m, st=st, o=o, F=F, D=D, cells=cells, idx=idx, cap=cap, empty=empty, d0=st.mem[D.id] if D else None)

    def fresh_block(s, size, content):
        # the new block holds size/cells whole elements
        ex.nl_term(s, 'd', term(size))
        n = ex.divE(term(size))
        r = ex.region(s, 'arr', 'blk', n, cells, content=content, w=64)
        s.ghost['blk'], s.ghost['bytes'] = r, term(size)
        return r

    def realloc(ex, s, args, inst):
        p, size = args[1], term(args[2])
        p = ex.norm(p) if isinstance(p, Ptr) else p
        ex.prove(s, size != 0, 'realloc of zero bytes would release the array')
        if empty:
            ex.prove(s, p.term() == 0 if not isinstance(p, Ptr) else (p.reg is None and cval(p.off) == 0), 'realloc of the own block')
        else:
            ex.prove(s, isinstance(p, Ptr) and p.reg is D and cval(p.offset()) == 0, 'realloc of the own block')
        s2 = s.copy()
        s2.ghost['oom'] = True
        if empty:
            c = Base('new', 64)
        else:
            ex.prove(s, D.id not in s.freed, 'block still owned')
            ex.nl_term(s, 'd', size)
            keep = umin(cap, ex.divE(size))
            c = Copy(Base('new', 64), bv(0), keep, s.mem[D.id], bv(0))
            s.freed = s.freed | {D.id}
        r = fresh_block(s, size, c)
        return Forks([(s2, NULL), (s, Ptr(r))])
    alloc_contracts(ex, None, realloc=realloc)
    return e


def inv_and_keep(e, s, newlen, keep):
    """representation invariant, and the first keep elements have their old values"""
    ex = e.ex
    g = s.mem[e.F.id]
    cap1, len1 = ex.cells_get(s, e.F, e.o[1]), ex.cells_get(s, e.F, e.o[2])
    d = g[e.o[4]][1]
    ex.prove(s, len1 == newlen, 'length')
    ex.prove(s, ex.cells_get(s, e.F, e.o[3]) == e.cells, 'element size unchanged')
    ex.prove(s, ULE(len1, cap1), 'capacity covers the length')
    i = fresh('i')
    if isinstance(d, Ptr) and d.reg is not None:
        ex.prove(s, cval(d.offset()) == 0 and d.reg.id not in s.freed, 'data points at a live block')
        ex.prove(s, ULE(cap1, d.reg.size), 'the block holds the capacity')
        if e.D is not None:
            ex.prove(s, Imp(ULT(i, keep), s.mem[d.reg.id].sel(i) == e.d0.sel(i)), 'elements keep their values')
    else:
        ex.prove(s, And(cap1 == 0, cval(term(d)) == 0), 'empty array has no block')
        ex.prove(s, e.D is None, 'block not forgotten')


def unchanged(e, s):
    inv_and_keep(e, s, e.idx, e.idx)
    e.ex.prove(s, e.ex.cells_get(s, e.F, e.o[1]) == e.cap, 'capacity unchanged on failure')


def fits(e, s, count):
    """a request of count elements is representable"""
    e.ex.nl_term(s, 'm', count)
    return And(Not(e.ex.ovfE(count)), ULE(e.ex.mulE(count), bv(1 << 62)))


def grow(T, which):
    for empty in (False, True):
        e = setup(T, empty)
        ex, st = e.ex, e.st
        n = fresh('n')
        ex.inputs['n'] = n
        count = S(e.idx + n) if which != 'resize' else n
        wrap = ULT(count, e.idx) if which != 'resize' else z3.BoolVal(False)

        def done(s, r):
            if which == 'push':
                r = ex.norm(r) if isinstance(r, Ptr) else r
                ok = isinstance(r, Ptr) and r.reg is not None
                r0 = bv(0) if ok else term(r)
            else:
                ok = ex.feasible(s, term(r) == 0)
                if ok:
                    ex.prove(s, term(r) == 0, 'one outcome per path')
            if not ok:
                if which == 'push' and e.empty and not ex.feasible(s, n != 0):
                    # pushing nothing onto an array without storage
                    unchanged(e, s)
                    return
                unchanged(e, s)
                ex.prove(s, r != 0 if which != 'push' else r0 == 0, 'failure is reported')
                if 'oom' not in s.ghost:
                    ex.nl_term(s, 'm', umax(count, bv(32)))
                    c2 = umax(count, bv(32))
                    ex.prove(s, Or(wrap, ex.ovfE(c2), UGT(ex.mulE(c2), bv(1 << 62))), 'refused only when out of memory or impossible')
                return
            ex.prove(s, Not(wrap), 'a length that wraps is refused')
            new = count if which != 'reserve' else e.idx
            keep = umin(e.idx, count)
            inv_and_keep(e, s, new, keep)
            ex.prove(s, ULE(count, ex.cells_get(s, e.F, e.o[1])), 'capacity covers the request')
            if 'blk' not in s.ghost:
                ex.prove(s, ex.cells_get(s, e.F, e.o[1]) == e.cap, 'capacity unchanged without growth')
            if which == 'push':
                d = s.mem[e.F.id][e.o[4]][1]
                ex.prove(s, isinstance(d, Ptr) and r.reg is d.reg and And(r.idx == e.idx, r.sub == 0), 'push returns the first new element')
        ex.run(st, 'bfdev_array_' + which, [Ptr(e.F), n], done)


def shrink(T, which):
    for empty in (False, True):
        e = setup(T, empty)
        ex, st = e.ex, e.st
        n = fresh('n')
        ex.inputs['n'] = n

        def done(s, r):
            r = ex.norm(r) if isinstance(r, Ptr) else r
            ok = isinstance(r, Ptr) and r.reg is not None
            short = UGT(n, e.idx)
            new = e.idx if which == 'peek' else If(short, e.idx, e.idx - n)
            inv_and_keep(e, s, new, new)
            ex.prove(s, ex.cells_get(s, e.F, e.o[1]) == e.cap, 'capacity unchanged')
            if ok:
                ex.prove(s, Not(short), 'more than stored is refused')
                ex.prove(s, r.reg is e.D and And(r.idx == e.idx - n, r.sub == 0), 'position of the removed elements')
            elif not e.empty:
                ex.prove(s, And(short, term(r) == 0), 'only more than stored is refused')
        if empty:
            # an array without storage: pop/peek of zero elements returns the NULL block
            st.assume(UGT(n, bv(0)))
        ex.run(st, 'bfdev_array_' + which, [Ptr(e.F), n], done)


def release(T):
    for empty in (False, True):
        e = setup(T, empty)
        ex, st = e.ex, e.st

        def free(ex, s, p):
            p = ex.norm(p) if isinstance(p, Ptr) else Ptr(None, p)
            if e.empty:
                ex.prove(s, p.reg is None and cval(p.off) == 0, 'nothing to free')
            else:
                ex.prove(s, p.reg is e.D and cval(p.offset()) == 0, 'frees the own block')
                s.freed = s.freed | {e.D.id}
        alloc_contracts(ex, None, on_free=free)

        def done(s, r):
            ex.prove(s, And(ex.cells_get(s, e.F, e.o[1]) == 0, ex.cells_get(s, e.F, e.o[2]) == 0, term(s.mem[e.F.id][e.o[4]][1]) == 0), 'released array is empty')
            if e.D:
                ex.prove(s, e.D.id in s.freed, 'block released')
        ex.run(st, 'bfdev_array_release', [Ptr(e.F)], done)


def inlines(T):
    for empty in (False, True):
        def mk():
            return setup(T, empty, '/verif/harness/tu_array.c')
        e = mk()
        e.ex.run(e.st, 'v_array_reset', [Ptr(e.F)], lambda s, r: inv_and_keep(e, s, bv(0), bv(0)))
        e = mk()
        e.ex.run(e.st, 'v_array_index', [Ptr(e.F)], lambda s, r: (e.ex.prove(s, r == e.idx, 'length'), unchanged(e, s)))
        e = mk()
        e.ex.run(e.st, 'v_array_size', [Ptr(e.F)], lambda s, r: (e.ex.prove(s, r == e.ex.mulE(e.idx), 'byte size'), unchanged(e, s)))
        e = mk()
        i = fresh('i')
        e.ex.inputs['i'] = i

        def done(s, r):
            r = e.ex.norm(r) if isinstance(r, Ptr) else r
            unchanged(e, s)
            if isinstance(r, Ptr) and r.reg is not None:
                e.ex.prove(s, r.reg is e.D and And(r.idx == i, r.sub == 0, ULT(i, e.idx)), 'element address')
            else:
                e.ex.prove(s, And(term(r) == 0, UGE(i, e.idx)), 'NULL only beyond the length')
        e.ex.run(e.st, 'v_array_data', [Ptr(e.F), i], done)
    e = mk()
    c = fresh('c')

    def idone(s, r):
        g = s.mem[e.F.id]
        e.ex.prove(s, And(e.ex.cells_get(s, e.F, e.o[1]) == 0, e.ex.cells_get(s, e.F, e.o[2]) == 0, e.ex.cells_get(s, e.F, e.o[3]) == c, term(g[e.o[4]][1]) == 0), 'initialised empty')
    e.ex.run(e.st, 'v_array_init', [Ptr(e.F), NULL, c], idone)


def lemmas(T):
    T.ex('src/array.c').nl_lemmas()


TASKS = [('lemmas', lemmas)] + [(w, lambda T, w=w: grow(T, w)) for w in ('push', 'resize', 'reserve')] + \
    [(w, lambda T, w=w: shrink(T, w)) for w in ('pop', 'peek')] + [('release', release), ('inlines', inlines)]
HARNESS = {'src': 'h_C01.c', 'what': 'random histories of push/pop/peek/resize/reserve/reset against a byte model, with failing allocations and impossible requests', 'bound': '<= 44 operations, element size <= 40, length <= 3200'}
