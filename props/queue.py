"""Contracts of the two ring queues (fifo, ringbuf): shared by C02 and C03."""
from .lib import *

TU = '/verif/harness/tu_queue.c'


class Q:
    def __init__(self, name):
        self.name = name
        self.src = 'src/%s.c' % name
        self.pfx = 'bfdev_' + name
        self.sname = 'struct.bfdev_' + name
        self.ring = name == 'ringbuf'


def setup(T, q, k, esize=None, srcs=None):
    """esize: 1, a fixed machine size, or None for symbolic >= 2"""
    ex = T.ex(*(srcs or [q.src]))
    m = ex.mods[0]
    st = State()
    fin, fout, mask = fresh('in'), fresh('out'), bv((1 << k) - 1)
    if esize:
        esz, elem = bv(esize), esize
    else:
        esz = fresh('esize')
        elem = esz
        st.assume(UGE(esz, bv(2)))
    ex.inputs.update({'in': fin, 'out': fout, 'mask': mask, 'esize': esz})
    cap = S(mask + 1)
    st.assume(ULE(fin - fout, cap))
    w = esize * 8 if esize else 64
    D = ex.region(st, 'arr', 'data', cap, elem, w=w)
    B = ex.region(st, 'arr', 'buff', fresh('blen'), elem, w=w)
    st.assume(ULT(B.size, bv(1 << 40)))
    if not esize:
        ex.scale = (esz, umax(cap, B.size))
        ex.assumed.add('element size * capacity fits the address space (the buffers exist in memory), so element-scaled byte counts do not wrap')
    o = offs(m, q.sname)
    F = ex.struct_region(st, m, q.sname, q.name, {o[1]: fin, o[2]: fout, o[3]: mask, o[4]: esz, o[5]: Ptr(D)})

    class E:
        pass
    e = E()
    e.__dict__.update(ex=ex, m=m, st=st, F=F, D=D, B=B, o=o, fin=fin, fout=fout, mask=mask, cap=cap, q=q,
                      used=S(fin - fout), d0=st.mem[D.id], b0=st.mem[B.id])
    return e


def at(content, base, mask, i):
    return content.sel(S((base + i) & mask))


def same_geom(e, s):
    g = s.mem[e.F.id]
    d = g[e.o[5]][1]
    return And(term(g[e.o[3]][1]) == e.mask, isinstance(d, Ptr) and d.reg is e.D and cval(d.offset()) == 0)


def post_in(e, s, r, n, bufsel, ret=True):
    """n elements bufsel(i) offered"""
    ex, q = e.ex, e.q
    d1 = s.mem[e.D.id]
    take = umin(n, e.cap) if q.ring else umin(n, e.cap - e.used)
    out1 = If(UGT(e.used + take, e.cap), e.fin + take - e.cap, e.fout) if q.ring else e.fout
    i = fresh('i')
    if ret:
        ex.prove(s, r == take, 'returns the number accepted')
    ex.prove(s, ex.cells_get(s, e.F, e.o[1]) == e.fin + take, 'in advances by the count')
    ex.prove(s, ex.cells_get(s, e.F, e.o[2]) == out1, 'out: exactly the oldest overwritten elements are dropped' if q.ring else 'out unchanged')
    ex.prove(s, same_geom(e, s), 'geometry unchanged')
    ex.prove(s, Imp(ULT(i, take), at(d1, e.fin, e.mask, i) == bufsel(i)), 'new tail elements equal the input in order')
    ex.prove(s, Imp(ULT(i, e.fin - out1), at(d1, out1, e.mask, i) == at(e.d0, out1, e.mask, i)), 'queued elements untouched')


def post_out(e, s, r, n, peek, avail=None, skip=None, advance=None):
    ex = e.ex
    avail = e.used if avail is None else avail
    skip = bv(0) if skip is None else skip
    take = umin(n, avail)
    adv = take if advance is None else advance
    i = fresh('i')
    ex.prove(s, r == take, 'returns min(len, available)')
    ex.prove(s, ex.cells_get(s, e.F, e.o[2]) == (e.fout if peek else e.fout + adv), 'out position')
    ex.prove(s, ex.cells_get(s, e.F, e.o[1]) == e.fin, 'in unchanged')
    ex.prove(s, same_geom(e, s), 'geometry unchanged')
    ex.prove(s, Imp(ULT(i, take), s.mem[e.B.id].sel(i) == at(e.d0, e.fout + skip, e.mask, i)), 'head elements delivered in order')
    ex.prove(s, Imp(UGE(i, take), s.mem[e.B.id].sel(i) == e.b0.sel(i)), 'destination beyond the count untouched')
    ex.prove(s, Imp(ULE(i, e.mask), s.mem[e.D.id].sel(i) == e.d0.sel(i)), 'storage untouched')


def t_in(q, one, ks):
    def t(T):
        for k in ks:
            e = setup(T, q, k, 1 if one else None)
            n = fresh('len')
            e.st.assume(ULE(n, e.B.size))
            e.ex.inputs['len'] = n
            e.ex.run(e.st, q.pfx + '_in_flat', [Ptr(e.F), Ptr(e.B), n], lambda s, r: post_in(e, s, r, n, e.b0.sel))
    return t


def t_out(q, one, peek, ks):
    def t(T):
        for k in ks:
            e = setup(T, q, k, 1 if one else None)
            n = fresh('len')
            e.st.assume(ULE(umin(n, e.used), e.B.size))
            e.ex.inputs['len'] = n
            e.ex.run(e.st, q.pfx + ('_peek_flat' if peek else '_out_flat'), [Ptr(e.F), Ptr(e.B), n],
                     lambda s, r: post_out(e, s, r, n, peek))
    return t


def reclen(d, pos, mask, rec):
    v = bv(0)
    for j in range(rec):
        v = v | (z3.ZeroExt(56, d.sel(S((pos + j) & mask))) << (8 * j))
    return S(v)


def t_rec_out(q, peek, rec, ks):
    def t(T):
        for k in ks:
            e = setup(T, q, k, 1)
            n = fresh('len')
            dl = reclen(e.d0, e.fout, e.mask, rec)
            # queue invariant of the record mode: the record at the head is whole
            e.st.assume(Or(e.fin == e.fout, And(UGE(e.used, bv(rec)), ULE(dl, e.used - rec))))
            e.st.assume(ULE(umin(n, dl), e.B.size))
            e.ex.inputs.update({'len': n, 'head record': dl})

            def done(s, r):
                empty = e.fin == e.fout
                dd = If(empty, bv(0), dl)
                post_out(e, s, r, n, peek, avail=dd, skip=bv(rec), advance=If(empty, bv(0), dl + rec))
            e.ex.run(e.st, q.pfx + ('_peek_record' if peek else '_out_record'), [Ptr(e.F), Ptr(e.B), n, bv(rec)], done)
    return t


def rec_in_post(e, s, r, acc, out1, rec):
    ex = e.ex
    d1 = s.mem[e.D.id]
    i = fresh('i')
    ex.prove(s, r == acc, 'returns the record length')
    ex.prove(s, ex.cells_get(s, e.F, e.o[1]) == e.fin + acc + rec, 'in advances over the whole record')
    ex.prove(s, ex.cells_get(s, e.F, e.o[2]) == out1, 'out')
    ex.prove(s, same_geom(e, s), 'geometry unchanged')
    ex.prove(s, reclen(d1, e.fin, e.mask, rec) == acc, 'the tail record carries its length')
    ex.prove(s, Imp(ULT(i, acc), at(d1, e.fin + rec, e.mask, i) == e.b0.sel(i)), 'the tail record carries the data in order')
    ex.prove(s, Imp(ULT(i, e.fin - out1), at(d1, out1, e.mask, i) == at(e.d0, out1, e.mask, i)), 'queued records untouched')


def t_rec_in(q, rec, ks):
    def t(T):
        for k in ks:
            e = setup(T, q, k, 1)
            ex, st = e.ex, e.st
            n = fresh('len')
            ex.inputs['len'] = n
            st.assume(ULE(n, e.B.size))
            st.assume(ULT(n, bv(1 << (8 * rec))))
            if q.ring:
                if (1 << k) <= rec:
                    continue
                isrec = z3.Function('isrec%d' % k, z3.BitVecSort(64), z3.BoolSort())
                # ghost: record boundaries of the queue contents
                chain = Forall(['pos'], lambda p: Imp(And(isrec(p), p != e.fin, ULE(p - e.fout, e.used)), And(
                    ULE(p - e.fout + rec, e.used),
                    ULE(p - e.fout + rec + reclen(e.d0, p, e.mask, rec), e.used),
                    isrec(p + rec + reclen(e.d0, p, e.mask, rec)))))
                st.assume(isrec(e.fout))
                st.assume(chain)
                st.hint('pos', e.fout)
                acc = umin(n, e.cap - rec)

                def inv(ex, s, L):
                    out = ex.cells_get(s, e.F, e.o[2])
                    s.hint('pos', out)
                    s.ghost['out_at_head'] = out
                    p = s.ghost['prev']
                    return [isrec(out), ULE(out - e.fout, e.used), ex.cells_get(s, e.F, e.o[1]) == e.fin, same_geom(e, s),
                            Or(out == e.fout, And(isrec(p), ULT(e.cap - (e.fin - p), acc + rec), ULE(p - e.fout, e.used), out == p + rec + reclen(e.d0, p, e.mask, rec)))]

                st.ghost['prev'] = e.fout
                ex.loops[(q.pfx + '_in_record', 0)] = LoopSpec(
                    inv=inv, ghosts=['prev'], on_back=lambda ex, s, L: s.ghost.__setitem__('prev', s.ghost['out_at_head']),
                    decreases=lambda ex, s, L: e.fin - ex.cells_get(s, e.F, e.o[2]))

                def done(s, r):
                    out1 = ex.cells_get(s, e.F, e.o[2])
                    rec_in_post(e, s, r, acc, out1, rec)
                    p = s.ghost['prev']
                    ex.prove(s, And(isrec(out1), ULE(out1 - e.fout, e.used)), 'out stays on a record boundary')
                    ex.prove(s, Or(out1 == e.fout, ULT(e.cap - (e.fin - p), acc + rec)), 'no record is evicted that could stay')
                ex.run(st, q.pfx + '_in_record', [Ptr(e.F), Ptr(e.B), n, bv(rec)], done)
            else:
                def done(s, r):
                    fits = ULE(n + rec, e.cap - e.used)
                    s1 = s.copy()
                    if ex.feasible(s1, fits):
                        s1.assume(fits)
                        rec_in_post(e, s1, r, n, e.fout, rec)
                    s2 = s
                    if ex.feasible(s2, Not(fits)):
                        s2.assume(Not(fits))
                        i = fresh('i')
                        ex.prove(s2, And(r == 0, ex.cells_get(s2, e.F, e.o[1]) == e.fin, ex.cells_get(s2, e.F, e.o[2]) == e.fout, same_geom(e, s2)), 'a record that does not fit is refused')
                        ex.prove(s2, Imp(ULE(i, e.mask), s2.mem[e.D.id].sel(i) == e.d0.sel(i)), 'refusal leaves the contents')
                ex.run(st, q.pfx + '_in_record', [Ptr(e.F), Ptr(e.B), n, bv(rec)], done)
    return t


def t_alloc(q):
    def t(T):
        ex = T.ex(q.src)
        m = ex.mods[0]
        st = State()
        o = offs(m, q.sname)
        F = ex.struct_region(st, m, q.sname, q.name, {})
        A = ex.struct_region(st, m, 'struct.bfdev_alloc', 'alloc', {}) if 'struct.bfdev_alloc' in m.types else ex.region(st, 'cells', 'alloc', 16, None)
        size, esize = fresh('size'), fresh('esize')
        st.assume(ULT(size, bv(1 << 31)), ULT(esize, bv(1 << 31)), UGE(esize, bv(1)))
        ex.inputs.update({'size': size, 'esize': esize})
        got = {}

        def make(ex, s, sz, zero):
            r = ex.region(s, 'arr', 'blk', fresh('n'), 1, w=8)
            s.ghost['blk'], s.ghost['bytes'] = r, term(sz)
            return Ptr(r)
        alloc_contracts(ex, make)

        def done(s, r):
            g = s.mem[F.id]
            r = S(r)
            if 'oom' in s.ghost:
                ex.prove(s, r == -12, 'no memory is reported')
                return
            if 'blk' not in s.ghost:
                ex.prove(s, r == -22, 'too small a size is rejected')
                ex.prove(s, ULT(size, bv(2)), 'only sizes below two are rejected')
                return
            cap = S(ex.cells_get(s, F, o[3]) + 1)
            ex.prove(s, r == 0, 'success')
            ex.prove(s, And(UGE(size, bv(2)), UGE(cap, size), cap & (cap - 1) == 0, ULT(z3.LShR(cap, 1), size)), 'capacity is the request rounded up to a power of two')
            ex.prove(s, And(ex.cells_get(s, F, o[1]) == 0, ex.cells_get(s, F, o[2]) == 0, ex.cells_get(s, F, o[4]) == esize), 'starts empty')
            ex.prove(s, s.ghost['bytes'] == cap * esize, 'the buffer holds capacity elements')
            d = g[o[5]][1]
            ex.prove(s, isinstance(d, Ptr) and d.reg is s.ghost['blk'], 'buffer attached')
        ex.run(st, q.pfx + '_dynamic_alloc', [Ptr(F), Ptr(A), esize, size], done)

        def freed(ex, s, p):
            s.ghost['freed'] = s.ghost.get('freed', []) + [p]
        e = setup(T, q, 3, 1)
        alloc_contracts(e.ex, make, on_free=freed)
        e.st.mem[e.F.id][e.o[0]] = (8, NULL)

        def fdone(s, r):
            f = s.ghost.get('freed', [])
            e.ex.prove(s, len(f) == 1 and f[0].reg is e.D, 'the buffer is released exactly once')
        e.ex.run(e.st, q.pfx + '_dynamic_free', [Ptr(e.F)], fdone)
    return t


def t_macros(q, es, ks):
    def t(T):
        sfx = {1: '_u8', 8: '_u64'}[es]
        fn = 'v_%s_' % q.name
        for k in ks:
            def mk():
                return setup(T, q, k, es, srcs=[TU, q.src])
            e = mk()
            v = fresh('v', 8 * es)
            e.ex.inputs['v'] = v

            def done(s, r):
                if not q.ring:
                    e.ex.prove(s, (r != 0) == ULT(e.used, e.cap), 'put succeeds iff there is room')
                post_in(e, s, r, bv(1), lambda i: v, ret=False)
            e.ex.run(e.st, fn + 'put' + sfx, [Ptr(e.F), v], done)
            for peek in (0, 1):
                e = mk()
                e.st.assume(UGE(e.B.size, bv(1)))
                def done(s, r):
                    e.ex.prove(s, (r != 0) == (e.used != 0), 'succeeds iff not empty')
                    post_out(e, s, If(r != 0, bv(1), bv(0)), bv(1), peek)
                e.ex.run(e.st, fn + ('peek' if peek else 'get') + sfx, [Ptr(e.F), Ptr(e.B)], done)
            for nm, f in (('len', lambda e: e.used), ('full', lambda e: If(e.used == e.cap, bv(1), bv(0))), ('empty', lambda e: If(e.used == 0, bv(1), bv(0)))):
                e = mk()
                e.ex.run(e.st, fn + nm + sfx, [Ptr(e.F)], lambda s, r: e.ex.prove(s, r == f(e), nm))
            for nm in ('reset', 'homing'):
                e = mk()
                e.ex.run(e.st, fn + nm + sfx, [Ptr(e.F)], lambda s, r: e.ex.prove(s, And(e.ex.cells_get(s, e.F, e.o[1]) == e.ex.cells_get(s, e.F, e.o[2]), same_geom(e, s)), nm + ' empties'))
            if k % 8 == 3:
                e = mk()
                n = fresh('len')
                e.st.assume(ULE(n, e.B.size))
                e.ex.run(e.st, fn + 'in' + sfx, [Ptr(e.F), Ptr(e.B), n], lambda s, r: post_in(e, s, r, n, e.b0.sel))
                for peek in (0, 1):
                    e = mk()
                    n = fresh('len')
                    e.st.assume(ULE(umin(n, e.used), e.B.size))
                    e.ex.run(e.st, fn + ('outpeek' if peek else 'out') + sfx, [Ptr(e.F), Ptr(e.B), n], lambda s, r: post_out(e, s, r, n, peek))
    return t


def tasks(name):
    q = Q(name)
    out = [('alloc', t_alloc(q))]
    K = range(1, 33)
    for one in (True, False):
        tag = 'bytes' if one else 'elements'
        for g in range(4):
            ks = [k for k in K if k % 4 == g]
            out.append(('in_flat/%s/%d' % (tag, g), t_in(q, one, ks)))
        for peek in (0, 1):
            for g in range(2):
                out.append(('%s_flat/%s/%d' % ('peek' if peek else 'out', tag, g), t_out(q, one, peek, [k for k in K if k % 2 == g])))
    for rec in (1, 2):
        for peek in (0, 1):
            out.append(('%s_record%d' % ('peek' if peek else 'out', rec), t_rec_out(q, peek, rec, K)))
        for g in range(4):
            out.append(('in_record%d/%d' % (rec, g), t_rec_in(q, rec, [k for k in K if k % 4 == g])))
    for es in (1, 8):
        for g in range(2):
            out.append(('macros/u%d/%d' % (es * 8, g), t_macros(q, es, [k for k in K if k % 2 == g])))
    return out
