"""Hash map: the nodes held are partitioned into chains, one per bucket; every node is in the chain of its hash."""
from .lib import *
from .listlib import I, INT, B64

SRC = 'src/hashmap.c'
HARNESS = dict(src='h_C11.c', what='random histories of add, set, update, append, delete, find and iteration with six hash functions, default and user sizing and failing allocations, against an array model', bound='up to 400 keys, 1000 histories per job')
ASSUMPTIONS = ['hash_key, hash_node, equal and find agree: nodes comparing equal have the same hash, and find compares by key',
               'hash list operations act on chains as proved under C05', 'a node handed to insert is in no table']
BOUNDED = 'iteration over the whole table by user code and user-supplied sizing rules run in the harness; the sizing rule is free in the proof'
HNX = 'bfdev_hlist_node.0'
D, H = 'n', 'h'
GH = ('home', 'pos', 'len', 'at')


def P(x):
    return Ptr(None, x)


def upd(f, k, v):
    return lambda x: If(x == k, v, f(x))


class HM:
    def __init__(m, T, bits=None, empty=False, srcs=(SRC,)):
        m.ex = ex = T.ex(*srcs)
        m.st = st = State()
        ex.getmap(st, HNX)
        ex.map_dom[HNX] = D
        ex.tag_alias[('bfdev_hlist_head', 0)] = ('bfdev_hlist_node', 0)
        ex.raw_struct = 'bfdev_hlist_head'
        m.n0, m.ghost0 = 0, None
        m.bits, m.cap, m.bk, m.used = fresh('bits', 32), fresh('capacity'), fresh('buckets'), fresh('used')
        m.hash = z3.Function('hash', INT, B64)
        m.key = z3.Function('key', B64, INT)
        m.ix = z3.Function('ix', B64, B64, B64)
        m.pd = fresh('pdata')
        m.alloc = ex.region(st, 'cells', 'alloc', 16)
        m.extend, m.shrink = True, True
        m.ops = ex.region(st, 'cells', 'ops', 48, content={0: (8, Fn('hash_key')), 8: (8, Fn('hash_node')), 16: (8, Fn('equal')), 24: (8, Fn('findk'))})
        ex.inputs.update(bits=m.bits, used=m.used)
        m.map = ex.struct_region(st, 'hashmap', 'bfdev_hashmap', dict(buckets=P(m.bk), bits=m.bits, capacity=m.cap, used=m.used, alloc=Ptr(m.alloc), ops=Ptr(m.ops), pdata=P(m.pd))) if 0 else \
            ex.region(st, 'cells', 'hashmap', 56, content={0: (8, P(m.bk)), 8: (4, m.bits), 16: (8, m.cap), 24: (8, m.used), 32: (8, Ptr(m.alloc)), 40: (8, Ptr(m.ops)), 48: (8, P(m.pd))})
        g = {'home': z3.Function('home', B64, B64), 'pos': z3.Function('pos', B64, INT), 'len': z3.Function('len', B64, INT), 'at': z3.Function('at', B64, INT, B64)}
        st.ghost.update(g)
        m.live = [(m.bk, m.cap)]
        # table of 2^bits buckets, or none yet
        st.assume(If(m.bk == 0, And(m.cap == 0, m.bits == 0), And(ULE(m.bits, bv(60, 32)), UGE(m.bits, bv(1, 32)), m.cap == (bv(1) << z3.ZeroExt(32, m.bits)),
                                                                   UGE(0 - m.bk, m.cap * 8), ULT(m.cap, bv(2**60)) if 0 else ULE(m.cap, bv(2**60)))))
        st.assume(*m.law(st, m.live), *m.placed(st, m.bk, m.cap))
        home0 = g['home']
        m.member0 = lambda y: home0(y) != 0
        st.hint(D, m.bk)
        C = ex.contracts
        C['hash_key'] = m.c_hash(lambda a: m.hash(m.k))
        C['hash_node'] = m.c_hash(lambda a: m.hash(m.key(term(a[0]))))
        C['equal'] = lambda ex, st, a, i: m.c_cmp(st, m.key(term(a[0])) == m.key(term(a[1])), a)
        C['findk'] = lambda ex, st, a, i: m.c_cmp(st, m.key(term(a[0])) == m.k, (a[0], None, a[2]))
        C['bfdev_hashtbl_index'] = m.c_index
        C['bfdev_hlist_head_add'], C['bfdev_hlist_del'], C['bfdev_hlist_del_init'], C['bfdev_hlist_replace'] = m.c_add, m.c_del, m.c_del, m.c_repl

    # --- ghost state
    def law(m, st, live):
        """each live bucket starts a chain at(h, 0..len(h)), linked by next; nodes know their place"""
        nx, g = m.ex.getmap(st, HNX), dict((k, st.ghost[k]) for k in GH)
        isl = lambda h: Or(*[And(b != 0, ULT(h - b, 8 * c), (h - b) & 7 == 0) for b, c in live])

        def node(y):
            h, p = g['home'](y), g['pos'](y)
            z = g['at'](h, p + 1)
            return Imp(h != 0, And(isl(h), y != 0, 0 <= p, p < g['len'](h), g['at'](h, p) == y, nx.sel(y) == If(p + 1 < g['len'](h), z, bv(0)),
                                   Imp(p + 1 < g['len'](h), And(z != 0, g['home'](z) == h, g['pos'](z) == p + 1))))

        def head(h):
            z = g['at'](h, 0)
            return Imp(isl(h), And(g['len'](h) >= 0, g['home'](h) == 0, nx.sel(h) == If(g['len'](h) > 0, z, bv(0)), Imp(g['len'](h) > 0, And(z != 0, g['home'](z) == h, g['pos'](z) == 0))))
        return [Forall(D, node, label='chains'), Forall(D, head, label='heads')]

    def slot(m, b, c, y):
        return b + 8 * m.ix(c, m.hash(m.key(y)))

    def placed(m, st, b, c):
        home = st.ghost['home']
        return [Forall(D, lambda y: Imp(home(y) != 0, And(home(y) == m.slot(b, c, y), ULT(m.ix(c, m.hash(m.key(y))), c))), label='every node in the bucket of its hash')]

    def retouch(m, st, live=None, **g):
        """the chain links changed to those of the new sequences (C05)"""
        st.ghost.update(g)
        m.n0 += 1
        m.ex.setmap(st, HNX, Base('%s.%d' % (HNX, m.n0), 64))
        st.assume(*m.law(st, live or st.ghost.get('live', m.live)))

    # --- contracts
    def c_hash(m, f):
        def h(ex, st, a, inst):
            ex.prove(st, term(a[1]) == m.pd, 'callback data passed on')
            return f(a)
        return h

    def c_cmp(m, st, eq, a):
        for x in a[:2]:
            if x is not None:
                st.hint(D, term(x))
        m.ex.prove(st, term(a[2]) == m.pd, 'callback data passed on')
        r = fresh('cmp')
        st.assume((r == 0) == eq)
        return r

    def c_index(m, ex, st, a, inst):
        size = term(a[0])
        ex.prove(st, And(UGE(size, bv(2)), size & (size - 1) == 0), 'bucket index of a power-of-two table')
        r = m.ix(size, term(a[1]))
        st.assume(ULT(r, size))
        return r

    def c_add(m, ex, st, a, inst):
        h, n = term(a[0]), term(a[1])
        g = {k: st.ghost[k] for k in GH}
        st.hint(D, h, n)
        live = st.ghost.get('live', m.live)
        ex.prove(st, And(Or(*[And(b != 0, ULT(h - b, 8 * c), (h - b) & 7 == 0) for b, c in live]), g['home'](n) == 0, n != 0), 'adds a free node to a bucket')
        if 'lasth' in st.ghost:
            ex.prove(st, h != st.ghost['lasth'], 'to another bucket than the one emptied')
            st.assume(h != st.ghost['lasth'])
            st.hint('mw', n)
            st.ghost['new'] = upd(st.ghost['new'], n, z3.BoolVal(True))
        m.retouch(st, home=upd(g['home'], n, h), pos=lambda y: If(y == n, I(0), g['pos'](y) + If(g['home'](y) == h, 1, 0)), len=upd(g['len'], h, g['len'](h) + 1),
                  at=lambda x, i: If(x == h, If(i == 0, n, g['at'](x, i - 1)), g['at'](x, i)))
        return None

    def c_del(m, ex, st, a, inst):
        n = term(a[0])
        g = {k: st.ghost[k] for k in GH}
        st.hint(D, n)
        ex.prove(st, g['home'](n) != 0, 'removes a node of the table')
        h, p = g['home'](n), g['pos'](n)
        if len(st.ghost.get('live', m.live)) > 1:
            st.ghost['lasth'] = h
        st.hint(D, h, g['at'](h, p + 1))
        m.retouch(st, home=upd(g['home'], n, bv(0)), pos=lambda y: g['pos'](y) - If(And(g['home'](y) == h, g['pos'](y) > p), 1, 0), len=upd(g['len'], h, g['len'](h) - 1),
                  at=lambda x, i: If(And(x == h, i >= p), g['at'](x, i + 1), g['at'](x, i)))
        return None

    def c_repl(m, ex, st, a, inst):
        o, n = term(a[0]), term(a[1])
        g = {k: st.ghost[k] for k in GH}
        st.hint(D, o, n)
        ex.prove(st, And(g['home'](o) != 0, g['home'](n) == 0), 'replaces a node of the table by a free one')
        m.retouch(st, home=upd(upd(g['home'], n, g['home'](o)), o, bv(0)), pos=upd(g['pos'], n, g['pos'](o)), len=g['len'],
                  at=lambda x, i: If(And(x == g['home'](o), i == g['pos'](o)), n, g['at'](x, i)))
        return None

    def scan_loop(m, fn, eq):
        def inv(ex, st, L):
            w = term(L['walk'])
            home, pos, ln = (st.ghost[k] for k in ('home', 'pos', 'len'))
            h = term(L['hashmap_buckets']) if 0 else m.bk + 8 * (term(L['index']))
            st.hint(D, w, h)
            p = If(w == 0, ln(h), pos(w))
            return [Imp(w != 0, home(w) == h), Forall(D, lambda y: Imp(And(home(y) == h, pos(y) < p), Not(eq(y))))]
        m.ex.loops[(fn, 0)] = LoopSpec(inv=inv, decreases=lambda ex, st, L: st.ghost['len'](m.bk + 8 * term(L['index'])) - If(term(L['walk']) == 0, st.ghost['len'](m.bk + 8 * term(L['index'])), st.ghost['pos'](term(L['walk']))))

    def same(m, s, label):
        ex = m.ex
        c = s.mem[m.map.id]
        ex.prove(s, And(term(ex.cells_get(s, m.map, 0)) == m.bk, term(ex.cells_get(s, m.map, 8)) == m.bits, term(ex.cells_get(s, m.map, 16)) == m.cap, term(ex.cells_get(s, m.map, 24)) == m.used), label)


def t_find(T):
    m = HM(T)
    ex, st = m.ex, m.st
    m.k = fresh('k', 'int')
    m.scan_loop('hashmap_find_key', lambda y: m.key(y) == m.k)

    def done(s, res):
        r, y = term(res), fresh('y')
        s.hint(D, r, y)
        home = s.ghost['home']
        ex.prove(s, If(r == 0, Imp(home(y) != 0, m.key(y) != m.k), And(home(r) != 0, m.key(r) == m.k)), 'finds a held node with the key exactly when there is one')
        m.same(s, 'a lookup changes nothing')
    ex.run(st, 'bfdev_hashmap_find', [Ptr(m.map), P(fresh('keyp'))], done)


def members(m, s, ex, want, label):
    """the members are now exactly those satisfying want, each in the bucket of its hash, in well formed chains"""
    y = fresh('y')
    b, c = term(ex.cells_get(s, m.map, 0)), term(ex.cells_get(s, m.map, 16))
    bits = term(ex.cells_get(s, m.map, 8))
    home = s.ghost['home']
    q = s.copy()
    q.hint(D, y)
    q.hint('mw', y)
    ex.prove(q, (home(y) != 0) == want(y), label + ': exactly the right nodes are held')
    ex.prove(q, Imp(home(y) != 0, And(home(y) == m.slot(b, c, y), ULT(m.ix(c, m.hash(m.key(y))), c))), label + ': each in the bucket of its hash')
    ex.prove(q, If(b == 0, And(c == 0, bits == 0), And(ULE(bits, bv(60, 32)), UGE(bits, bv(1, 32)), c == (bv(1) << z3.ZeroExt(32, bits)))), label + ': 2^bits buckets')


def rehash_contract(m):
    def f(ex, st, a, inst):
        nb = term(a[1])
        ex.prove(st, And(UGE(nb, bv(1, 32)), ULE(nb, bv(61, 32))), 'rehash to a representable size')
        bad = st.copy()
        b2, c2 = fresh('nbuckets'), bv(1) << z3.ZeroExt(32, nb)
        st.assume(ULE(nb, bv(60, 32)), b2 != 0, UGE(0 - b2, 8 * c2))
        g = st.ghost
        home0 = g['home']
        m.n0 += 1
        F = lambda n, *s: z3.Function('%s.r%d' % (n, m.n0), *s)
        ng = {'home': F('home', B64, B64), 'pos': F('pos', B64, INT), 'len': F('len', B64, INT), 'at': F('at', B64, INT, B64)}
        mp = a[0]
        for o, w, v in ((0, ('ptr',), P(b2)), (8, ('i', 32), nb), (16, ('i', 64), c2)):
            ex.store(st, ex.ptr_add(mp, bv(o)), v, w)
        st.ghost['live'] = [(b2, c2)]
        st.ghost['rehashed'] = True
        m.retouch(st, **ng)
        st.assume(Forall(D, lambda y: (ng['home'](y) != 0) == (home0(y) != 0)), *m.placed(st, b2, c2))
        st.hint(D, b2)
        return Forks([(bad, bv(-12 & 0xffffffff, 32)), (st, bv(0, 32))])
    m.ex.contracts['hashmap_rehash'] = f


def user_sizing(m, extend, shrink):
    """optional user decision callbacks: free outcome"""
    c = dict(m.st.mem[m.ops.id])
    c[32] = (8, Fn('u_extend') if extend else NULL)
    c[40] = (8, Fn('u_shrink') if shrink else NULL)
    m.st.mem[m.ops.id] = c

    def u(ex, st, a, i):
        ex.prove(st, And(a[0].reg is m.map, term(a[1]) == m.pd), 'sizing callback gets the map')
        return fresh('resize', 1)
    m.ex.contracts['u_extend'] = m.ex.contracts['u_shrink'] = u


def t_insert(strategy, user):
    def t(T):
        m = HM(T)
        ex, st = m.ex, m.st
        user_sizing(m, user, user)
        x = fresh('x')
        m.k = m.key(x)
        home0 = st.ghost['home']
        st.assume(x != 0, home0(x) == 0, Not(And(m.bk != 0, ULT(x - m.bk, 8 * m.cap))))
        st.hint(D, x)
        m.scan_loop('hashmap_find_node', lambda y: m.key(y) == m.k)
        rehash_contract(m)
        oldp = ex.region(st, 'cells', 'old', 8, content={0: (8, P(fresh('olddummy')))})
        old0 = term(ex.cells_get(st, oldp, 0))

        def done(s, res):
            r = term(res)
            home = s.ghost['home']
            cnt = term(ex.cells_get(s, m.map, 24))
            o = term(ex.cells_get(s, oldp, 0))
            y = fresh('y')
            s.hint(D, y, o)
            absent = lambda q: Imp(home0(q) != 0, m.key(q) != m.k)
            present = And(home0(o) != 0, m.key(o) == m.k)
            code = lambda n: bv(n & 0xffffffff, 32)
            a = s.copy()
            a.assume(r == 0)
            if ex.feasible(a):
                if 'at' in s.ghost and cnt is not m.used and ex.feasible(_with(a, cnt != m.used)):
                    members(m, a, ex, lambda q: Or(q == x, home0(q) != 0), 'inserted')
                    ex.prove(a, cnt == m.used + 1, 'counts the new element')
                    if strategy != 3:
                        ex.prove(a, absent(y), 'a second element only if none was equal')
                    ex.prove(a, strategy != 2, 'update never adds')
                else:
                    ex.prove(a, And(strategy in (1, 2), present), 'replaces an equal element only on set and update')
                    members(m, a, ex, lambda q: Or(q == x, And(home0(q) != 0, q != o)), 'replaced')
                    ex.prove(a, cnt == m.used, 'counts the same')
            b = s.copy()
            b.assume(r != 0)
            if ex.feasible(b):
                members(m, b, ex, lambda q: home0(q) != 0, 'refused')
                ex.prove(b, cnt == m.used, 'refused: counts the same')
                ex.prove(b, Or(r == code(-12), And(strategy == 0, r == code(-17), present), And(strategy == 2, r == code(-2), absent(y))), 'refusals: exists, does not exist or no memory')
        ex.run(st, 'bfdev_hashmap_insert', [Ptr(m.map), P(x), Ptr(oldp), bv(strategy, 32)], done)
    return t


def _with(s, c):
    s = s.copy()
    s.assume(c)
    return s


def t_delete(user):
    def t(T):
        m = HM(T)
        ex, st = m.ex, m.st
        user_sizing(m, user, user)
        m.k = fresh('k', 'int')
        home0 = st.ghost['home']
        m.scan_loop('hashmap_find_key', lambda y: m.key(y) == m.k)
        rehash_contract(m)
        outp = ex.region(st, 'cells', 'out', 8, content={0: (8, P(fresh('outdummy')))})
        o0 = term(ex.cells_get(st, outp, 0))

        def done(s, res):
            r = term(res)
            o = term(ex.cells_get(s, outp, 0))
            cnt = term(ex.cells_get(s, m.map, 24))
            y = fresh('y')
            s.hint(D, y, o)
            a = _with(s, r == 0)
            if ex.feasible(a):
                ex.prove(a, And(home0(o) != 0, m.key(o) == m.k), 'removes a held element with the key')
                members(m, a, ex, lambda q: And(home0(q) != 0, q != o), 'deleted')
                ex.prove(a, cnt == m.used - 1, 'counts one less')
            b = _with(s, r != 0)
            if ex.feasible(b):
                ex.prove(b, And(r == bv(-2 & 0xffffffff, 32), Imp(home0(y) != 0, m.key(y) != m.k), o == o0), 'refused only when no element has the key')
                m.same(b, 'a refused deletion changes nothing')
        ex.run(st, 'bfdev_hashmap_del', [Ptr(m.map), P(fresh('keyp')), Ptr(outp)], done)
    return t


def ready(st, L):
    return st.mem[L.region('tmp').id].get(0) is not None


def t_rehash(T):
    m = HM(T)
    ex, st = m.ex, m.st
    nb = fresh('nbits', 32)
    st.assume(UGE(nb, bv(1, 32)), ULE(nb, bv(61, 32)))
    home0 = st.ghost['home']
    ncap = bv(1) << z3.ZeroExt(32, nb)
    ex.prove(st, Imp(ULE(nb, bv(60, 32)), And(ULE(ncap, bv(2**60)), UGE(ncap, bv(2)), ncap & (ncap - 1) == 0)), 'a power of two')
    st.assume(Imp(ULE(nb, bv(60, 32)), And(ULE(ncap, bv(2**60)), UGE(ncap, bv(2)), ncap & (ncap - 1) == 0)))
    ex.abstract_shift = True
    ex.slice = 5000
    st0 = st.copy()
    new = z3.Function('new', B64, z3.BoolSort())
    st.ghost['new'] = new
    st.assume(Forall(['mw'], lambda y: And(Not(new(y)), *[f.fn(y) for f in m.placed(st0, m.bk, m.cap)])))

    def make(ex, st, size, zero):
        ex.prove(st, size == 8 * ncap, 'one head per bucket')
        b2 = fresh('nbuckets')
        st.assume(b2 != 0, UGE(0 - b2, 8 * ncap), Or(m.bk == 0, UGE(b2 - m.bk, 8 * m.cap)), Or(m.bk == 0, UGE(m.bk - b2, 8 * ncap)), ULE(nb, bv(60, 32)))
        st.assume(Forall(D, lambda y: Imp(st.ghost['home'](y) != 0, UGE(y - b2, 8 * ncap))))   # the new block holds no node
        st.ghost['nb'] = b2
        return P(b2)

    def free(ex, st, p):
        b2 = st.ghost['nb']
        ex.prove(st, term(p) == m.bk, 'frees the old buckets')
        y = fresh('y')
        st.hint('mw', y)
        ex.prove(st, Imp(st.ghost['home'](y) != 0, st.ghost['home'](y) == m.slot(b2, ncap, y)), 'nothing left in the old buckets')
        st.ghost['freed'] = True
    alloc_contracts(ex, make, on_free=free)

    def tinit(ex, st, a, inst):
        b2 = st.ghost['nb']
        ex.prove(st, And(term(a[0]) == b2, term(a[1]) == ncap), 'initialises all new buckets')
        ln = st.ghost['len']
        st.assume(Forall(D, lambda h: Imp(And(ULT(h - b2, 8 * ncap), (h - b2) & 7 == 0), And(ln(h) == 0, st_home(h) == 0))))
        st.ghost['live'] = [(m.bk, m.cap), (b2, ncap)]
        m.retouch(st)
        st.ghost['ready'] = True
        return None
    st_home = home0
    ex.contracts['bfdev_hashtbl_init'] = tinit

    def common(st, i):
        home, b2, st_new = st.ghost['home'], st.ghost['nb'], st.ghost['new']
        old = lambda y: m.ix(m.cap, m.hash(m.key(y)))
        st.hint(D, m.bk + 8 * i)
        return m.law(st, [(m.bk, m.cap), (b2, ncap)]) + [Forall('mw', lambda y: And((home(y) != 0) == (home0(y) != 0), Imp(home(y) != 0, If(Not(st_new(y)),
            And(home(y) == m.bk + 8 * old(y), UGE(old(y), i), ULT(old(y), m.cap)), And(home(y) == m.slot(b2, ncap, y), ULT(m.ix(ncap, m.hash(m.key(y))), ncap))))), label='moved or waiting')]

    def outer(ex, st, L):
        i = term(L['index'])
        return [Or(ULE(i, m.cap))] + common(st, i)

    def inner(ex, st, L):
        i, w, tmp = term(L['index']), term(L['walk']), L['tmp'] if ready(st, L) else None
        home, pos, ln = (st.ghost[k] for k in ('home', 'pos', 'len'))
        h = m.bk + 8 * i
        st.hint(D, w, h)
        st.hint('mw', w)
        if tmp is not None:
            st.hint(D, term(tmp))
        nx = ex.getmap(st, HNX)
        return [ULT(i, m.cap), If(w == 0, ln(h) == 0, And(home(w) == h, pos(w) == 0)), Imp(w != 0, term(tmp) == nx.sel(w) if tmp is not None else z3.BoolVal(False))] + common(st, i)

    def emptied(ex, st, L):
        h, home = m.bk + 8 * (term(L['index']) - 1), st.ghost['home']
        z = fresh('z')
        q = st.copy()
        q.hint(D, z, h)
        ex.prove(q, home(z) != h, 'the bucket is empty now')
        st.assume(Forall('mw', lambda y: home(y) != h))
    shape = lambda ex, st, rid, o, samples: P(fresh('tmp'))
    ex.loops[('hashmap_rehash', 0)] = LoopSpec(inv=outer, ghosts=list(GH) + ['new'], on_back=emptied, decreases=lambda ex, st, L: m.cap - term(L['index']), shape=shape)
    ex.loops[('hashmap_rehash', 1)] = LoopSpec(inv=inner, ghosts=list(GH) + ['new'], decreases=lambda ex, st, L: st.ghost['len'](m.bk + 8 * term(L['index'])), shape=shape)

    def done(s, res):
        r = term(res)
        if s.ghost.get('nb') is None:
            ex.prove(s, r == bv(-12 & 0xffffffff, 32), 'a failed allocation is reported')
            m.same(s, 'a failed allocation changes nothing')
            ex.prove(s, z3.BoolVal(ex.getmap(s, HNX) is ex.init_maps[HNX]), 'a failed allocation moves nothing')
            return
        ex.prove(s, r == 0, 'success')
        ex.prove(s, z3.BoolVal(bool(s.ghost.get('freed'))), 'the old buckets are released')
        ex.prove(s, And(term(ex.cells_get(s, m.map, 0)) == s.ghost['nb'], term(ex.cells_get(s, m.map, 8)) == nb, term(ex.cells_get(s, m.map, 24)) == m.used), 'installs the new table')
        members(m, s, ex, lambda q: home0(q) != 0, 'rehashed')
    ex.run(st, 'hashmap_rehash', [Ptr(m.map), nb], done)


def t_index(T):
    """the bucket index is a function of size and hash, below the size"""
    m = HM(T)
    ex = m.ex
    st = State()
    k, v = fresh('bits', 64), fresh('hash')
    del ex.contracts['bfdev_hashtbl_index']
    st.assume(ULE(k, bv(60)), UGE(k, bv(1)))
    size = bv(1) << k
    ex.run(st, 'bfdev_hashtbl_index', [size, v], lambda s, r: ex.prove(s, ULT(term(r), size), 'index below the number of buckets'))


def t_init(T):
    """every bucket of a new table is empty, nothing else is touched"""
    ex = T.ex(SRC)
    st = State()
    ex.tag_alias[('bfdev_hlist_head', 0)] = ('bfdev_hlist_node', 0)
    ex.raw_struct = 'bfdev_hlist_head'
    m0 = ex.getmap(st, HNX)
    ex.map_dom[HNX] = D
    b, c = fresh('b'), fresh('c')
    st.assume(b != 0, ULE(c, bv(2**60)), UGE(0 - b, 8 * c))

    def inv(ex, st, L):
        i = term(L['count'])
        mp = ex.getmap(st, HNX)
        return [ULE(i, c), Forall(D, lambda h: If(And(ULT(h - b, 8 * i), (h - b) & 7 == 0), mp.sel(h) == 0, mp.sel(h) == m0.sel(h)))]
    ex.loops[('bfdev_hashtbl_init', 0)] = LoopSpec(inv=inv, decreases=lambda ex, st, L: c - term(L['count']))

    def done(s, r):
        h = fresh('h')
        s.hint(D, h)
        mp = ex.getmap(s, HNX)
        ex.prove(s, If(And(ULT(h - b, 8 * c), (h - b) & 7 == 0), mp.sel(h) == 0, mp.sel(h) == m0.sel(h)), 'all buckets empty, nothing else touched')
    ex.run(st, 'bfdev_hashtbl_init', [P(b), c], done)


def t_release(T):
    m = HM(T)
    ex, st = m.ex, m.st
    alloc_contracts(ex, None, on_free=lambda ex, st, p: (ex.prove(st, term(p) == m.bk, 'frees the buckets'), st.ghost.update(freed=True), None)[-1])

    def done(s, r):
        ex.prove(s, z3.BoolVal(bool(s.ghost.get('freed'))), 'buckets released')
        ex.prove(s, And(*[term(ex.cells_get(s, m.map, o)) == 0 for o in (0, 16, 24)], term(ex.cells_get(s, m.map, 8)) == 0), 'an empty map again')
    ex.run(st, 'bfdev_hashmap_release', [Ptr(m.map)], done)


TASKS = [('find', t_find)] + [('insert-%s%s' % (n, '-user' if u else ''), t_insert(k, u)) for k, n in enumerate(('add', 'set', 'update', 'append')) for u in (False, True)] + \
    [('delete', t_delete(False)), ('delete-user', t_delete(True)), ('rehash', t_rehash), ('index', t_index), ('init', t_init), ('release', t_release)]
