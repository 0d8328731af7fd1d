"""Heap: complete binary tree over 1-based positions, ordered by the comparator."""
from .lib import *
from .C13 import find_contracts
from .listlib import I
TU, SRC = '/verif/harness/tu_heap.c', 'src/heap.c'
HARNESS = dict(src='h_C07.c', what='insertions and deletions at random positions: links, shape, order, both traversals and lookup by position after every step', bound='up to 300 nodes, 20,000 histories per job')
ASSUMPTIONS = ['fewer than 2^61 nodes', 'the comparator is a total preorder of the nodes (a rank per node)', 'a node handed to insert is not in the heap; a node handed to delete is']
BOUNDED = 'the postorder traversal runs in the harness only'
PA, LE, RI = ('bfdev_heap_node.%d' % o for o in (0, 8, 16))
MAPS = (PA, LE, RI)
B64, INT = z3.BitVecSort(64), z3.IntSort()
D = 'hp'


def P(x):
    return Ptr(None, x)


def up(i):
    return i / 2 if z3.is_int(i) else z3.LShR(i, bv(1))


def ev(i):
    return 2 * i


def odd(i):
    return 2 * i + 1


def sib(i):
    return If(i % 2 == 0, i + 1, i - 1) if z3.is_int(i) else i ^ 1


def upd(f, k, v):
    """f[k := v]"""
    return lambda x: If(x == k, v, f(x))


def struct_copy(ex, st, d, s, c):
    """copies of whole nodes"""
    assert c == 24
    ty = ('ptr',)
    vs = [ex.load(st, ex.ptr_add(P(s.off) if s.tag is None else s, bv(o)) if s.reg is not None else node(s, o), ty) for o in (0, 8, 16)]
    for o, v in zip((0, 8, 16), vs):
        if d.reg is None:
            ex.store(st, node(d, o), v, ty)
        else:
            ex.store(st, ex.ptr_add(d, bv(o)), v, ty)
    return d


def node(p, o):
    b = p.base if p.tag is not None else p.off
    return Ptr(None, b + bv(o), tag=('bfdev_heap_node', o), base=b)


SHR = z3.Function('shr', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))


def shr_facts(f, v, d):
    m = f(v, d)
    return And(Imp(m & 1 == 1, odd(up(m)) == m), Imp(m & 1 == 0, ev(up(m)) == m), Imp(UGE(d, bv(1)), ULE(m, up(v))), Imp(d == 0, f(v, d) == v), ULE(f(v, d), v), (f(v, d) == 1) == (z3.LShR(v, d) == 1),
               Imp(And(UGE(d, bv(1)), ULT(d, bv(64))), And(up(f(v, d - 1)) == f(v, d), (v & (bv(1) << (d - 1)) != 0) == (f(v, d - 1) & 1 == 1))))


def t_shift(T):
    ex = T.ex(SRC)
    st = State()
    st.frames = []
    v, d = fresh('v'), fresh('d')
    st.assume(ULT(d, bv(64)))
    ex.prove(st, shr_facts(z3.LShR, v, d), 'lemma: shifting the position one level at a time')


class H:
    """ghost view: A position -> node, pos node -> position"""

    def __init__(h, T, dbg=False, ints=True):
        h.ex = ex = T.ex(TU, SRC, 'src/heap-debug.c') if dbg else T.ex(T.mod(TU, ('V_NODEBUG',)), SRC)
        ex.contracts['bfdev_log_core'] = lambda ex, st, a, i: bv(0, 32)
        find_contracts(ex)
        h.st = st = State()
        ex.raw_struct = 'bfdev_heap_node'
        ex.struct_copy_hook = struct_copy
        h.ints = ints
        h.new = lambda name: fresh(name, 'int') if ints else fresh(name)
        h.one = I(1) if ints else bv(1)
        h.n0 = h.new('n')
        # with mathematical positions the count cell is only ever stepped by one
        h.c0 = fresh('count') if ints else h.n0
        ex.inputs['n'] = h.n0
        h.arrays(st)
        st.assume(h.n0 >= 0, h.n0 < 1 << 61)
        A0 = st.ghost['A']
        h.root = ex.region(st, 'cells', 'root', 16, content={0: (8, P(If(h.n0 == 0, bv(0), A0(h.one)))), 8: (8, h.c0)})
        h.rank = z3.Function('rank', B64, INT)
        st.assume(h.shapes(st, h.n0))
        st.hint(D, h.one)

        def cmp(ex, st, a, inst):
            x, y = h.rank(term(a[0])), h.rank(term(a[1]))
            r = fresh('cmp')
            st.assume((r < 0) == (x < y), (r > 0) == (x > y))
            return r
        ex.contracts['cmp'] = cmp
        ex.resolve_untagged = h.link
        ex.abstract_shift = not ints

    def all(h, f, label=None):
        return Forall(D, f, widths=['int' if h.ints else 64], label=label)

    def arrays(h, st):
        X = INT if h.ints else B64
        st.ghost['A'], st.ghost['pos'] = z3.Function(str(fresh('A')), X, B64), z3.Function(str(fresh('pos')), B64, X)

    def link(h, st, p, size):
        m, A = st.ghost['m'], st.ghost['A']
        a = A(up(m))
        h.ex.prove(st, p.off == If(m == 1, term(Ptr(h.root)), If(m & 1 == 1, a + 16, a + 8)), 'known link cell')
        return [(m == 1, Ptr(h.root)), (And(m != 1, m & 1 == 1), node(P(a), 16)), (m & 1 == 0, node(P(a), 8))]

    def member(h, st, x, n):
        p = st.ghost['pos'](x)
        return And(p >= 1, p <= n, st.ghost['A'](p) == x)

    def shapes(h, st, n):
        f = h.shape_fn(st, n)
        return h.all(f, label='shape')

    def orders(h, st, n, *a):
        A = st.ghost['A']
        return h.all(lambda i: h.ordered(st, i, n, *a, A=A), label='order')

    def shape(h, st, i, n, A=None, pos=None):
        return h.shape_fn(st, n, A, pos)(i)

    def shape_fn(h, st, n, A=None, pos=None):
        A, pos = st.ghost['A'] if A is None else A, st.ghost['pos'] if pos is None else pos
        pa, le, ri = (h.ex.getmap(st, m) for m in MAPS)
        return lambda i: h.shape_at(i, n, A, pos, pa, le, ri)

    def shape_at(h, i, n, A, pos, pa, le, ri):
        """position i: node distinct, children at 2i and 2i+1, parent at i/2"""
        a = A(i)
        c = lambda j: If(j <= n, A(j), bv(0))
        return Imp(And(i >= 1, i <= n),
                   And(a != 0, pos(a) == i, le.sel(a) == c(ev(i)), ri.sel(a) == c(odd(i)), pa.sel(a) == If(i == 1, bv(0), A(up(i)))))

    def ordered(h, st, i, n, hole=None, down=False, A=None):
        """node i does not order before its parent (hole: position exempted, down: its children)"""
        A = st.ghost['A'] if A is None else A
        rk = lambda j: h.rank(A(j))
        g = And(i >= 2, i <= n)
        if hole is None:
            return Imp(g, rk(i) >= rk(up(i)))
        p = hole
        ok = [Imp(And(g, i != p) if not down else And(g, up(i) != p), rk(i) >= rk(up(i)))]
        # children of the exempted node are not before its parent
        ok.append(Imp(And(g, up(i) == p, p >= 2), rk(i) >= rk(up(p))))
        return And(*ok)

    def around(h, st, *ps):
        for p in ps:
            for t in (p, up(p), up(up(p)), ev(p), odd(p), sib(p)):
                st.hint(D, S(t))

    def rootp(h, st):
        return [term(h.ex.cells_get(st, h.root, 0)), h.ex.cells_get(st, h.root, 8)]

    def root_ok(h, st, n, A=None):
        A = st.ghost['A'] if A is None else A
        r, c = h.rootp(st)
        return And(c == (n if not h.ints else h.c0 if n is h.n0 else h.c0 - 1), r == If(n == 0, bv(0), A(h.one)))

    def frame(h, ex, st, A, n, extra=()):
        """nodes outside the heap keep their links"""
        y = fresh('y')
        s = st.copy()
        s.assume(h.all(lambda i: Imp(And(i >= 1, i <= n), A(i) != y)))
        for x in extra:
            s.assume(x != y)
        for m in MAPS:
            ex.prove(s, ex.getmap(s, m).sel(y) == ex.init_maps[m].sel(y), 'other nodes untouched')

    # loops ----------------------------------------------------------------------------
    def swap_specs(h):
        ex = h.ex

        def swap(st, p, q):
            A, pos = st.ghost['A'], st.ghost['pos']
            a, b = A(p), A(q)
            st.ghost['A'] = upd(upd(A, p, b), q, a)
            st.ghost['pos'] = upd(upd(pos, b, p), a, q)

        def swap_c(ex, st, args, inst):
            # parent_swap, proved by the swap task
            A, pos = st.ghost['A'], st.ghost['pos']
            n = h.nn
            y = term(args[2])
            c = pos(y)
            s = st.copy()
            h.around(s, c)
            ex.prove(s, And(c >= 2, c <= n, A(c) == y, term(args[1]) == A(up(c))), 'swaps a node with its parent')
            i = h.new('i')
            h.around(s, i)
            ex.prove(s, And(h.root_ok(s, n), h.shape(s, i, n)), 'swap precondition')
            ex.prove(s, h.foreign(s), 'swap precondition: outside')
            h.around(st, c)
            for m in MAPS:
                ex.setmap(st, m, Base(m + '.s', 64))
            ex.store(st, Ptr(h.root), P(fresh('r2')), ('ptr',))
            q = S(up(c))
            A1, pos1 = upd(upd(A, c, A(q)), q, y), upd(upd(pos, A(q), c), y, q)
            st.assume(h.root_ok(st, n, A1), h.all(h.shape_fn(st, n, A1, pos1)))
            st.assume(*[ex.getmap(st, m).sel(h.y) == h.ym[m] for m in MAPS])
            return None
        ex.contracts['parent_swap'] = swap_c

        def common(st, n):
            return [h.root_ok(st, n), h.shapes(st, n), h.foreign(st)]

        def f_fix(ex, st, L):
            p, n = st.ghost['p'], h.nn
            h.around(st, p)
            return [p >= 1, p <= n, term(L['node']) == st.ghost['A'](p)] + common(st, n) + \
                [h.orders(st, n, p)]

        def f_back(ex, st, L):
            p = st.ghost['p']
            swap(st, p, up(p))
            st.ghost['p'] = S(up(p))
            h.around(st, p)
        ex.loops[('bfdev_heap_fixup', 0)] = LoopSpec(inv=f_fix, ghosts=['A', 'pos', 'p'], on_back=f_back, decreases=lambda ex, st, L: st.ghost['p'])

        def e_inv(ex, st, L):
            p, n = st.ghost['p'], h.nn
            h.around(st, p)
            return [p >= 1, p <= n, term(L['node']) == st.ghost['A'](p)] + common(st, n) + \
                [h.orders(st, n, p, True)]

        def e_back(ex, st, L):
            p = st.ghost['p']
            left = term(L['successor']) == st.ghost['A'](ev(p))
            q = S(ev(p)) if not ex.feasible(st, Not(left)) else S(odd(p)) if not ex.feasible(st, left) else S(If(left, ev(p), odd(p)))
            swap(st, p, q)
            st.ghost['p'] = q
            h.around(st, p, ev(p), odd(p))
        ex.loops[('bfdev_heap_erase', 0)] = LoopSpec(inv=e_inv, ghosts=['A', 'pos', 'p'], on_back=e_back, decreases=lambda ex, st, L: h.nn - st.ghost['p'])

    def foreign(h, st):
        """the swaps permute the members: a node outside stays outside and untouched"""
        y = h.y
        A, pos = st.ghost['A'], st.ghost['pos']
        return And(Not(h.member(st, y, h.nn)), *[h.ex.getmap(st, m).sel(y) == h.ym[m] for m in MAPS])

    def set_foreign(h, st, n):
        h.y = fresh('y')
        h.nn = n
        A0 = st.ghost['A']
        st.assume(h.all(lambda i: Imp(And(i >= 1, i <= n), A0(i) != h.y)))
        st.assume(Not(h.member(st, h.y, n)))
        h.ym = {m: h.ex.getmap(st, m).sel(h.y) for m in MAPS}

    def walk_spec(h, fn, key, val, link):
        """descents towards position val; the loop variable is the node (or link) at val >> depth"""
        ex = h.ex

        def inv(ex, st, L):
            d = z3.ZeroExt(32, L.t('depth'))
            v = val(st, L)
            m = SHR(v, d)
            st.ghost['m'] = m
            st.assume(Imp(ULT(d, bv(64)), shr_facts(SHR, v, d)))
            st.hint(D, m, S(up(m)))
            A = st.ghost['A']
            n = h.n0
            out = [ULT(d, bv(64)), m >= 1, h.root_ok(st, n)]
            x = term(L[key])
            if link:
                a = A(up(m))
                out += [n != 0, up(v) <= n, x == If(m == 1, term(Ptr(h.root)), If(m & 1 == 1, a + 16, a + 8))]
                if L.has('parentp'):
                    pp = term(h.ex.cells_get(st, h.pp, 0)) if h.ex.cells_get(st, h.pp, 0) is not None else None
                    out.append(Imp(m != 1, pp == a))
            else:
                out += [m <= n + 1, x == If(m <= n, A(m), bv(0))]
            return out
        ex.loops[(fn, 0)] = LoopSpec(inv=inv, decreases=lambda ex, st, L: z3.ZeroExt(32, L.t('depth')), ghosts=['m'])


def order_goal(h, ex, st, n, A=None, label='every node orders after its parent'):
    i = h.new('i')
    s = st.copy()
    h.around(s, i)
    ex.prove(s, h.ordered(s, i, n, A=A), label)


def shape_goal(h, ex, st, n, A=None, pos=None, hints=()):
    i = h.new('i')
    s = st.copy()
    h.around(s, i, *hints)
    ex.prove(s, h.root_ok(s, n, A), 'root and count')
    ex.prove(s, h.shape(s, i, n, A, pos), 'links form the complete tree')


def t_fixup(T):
    h = H(T)
    ex, st = h.ex, h.st
    p = h.new('p')
    ex.inputs['p'] = p
    st.assume(p >= 1, p <= h.n0)
    st.ghost['p'] = p
    h.around(st, p)
    st.assume(h.all(lambda i, A=st.ghost['A']: h.ordered(st, i, h.n0, p, A=A), label='order'))
    h.set_foreign(st, h.n0)
    h.swap_specs()
    x = st.ghost['A'](p)

    def done(s, r):
        shape_goal(h, ex, s, h.n0)
        order_goal(h, ex, s, h.n0)
        ex.prove(s, h.foreign(s), 'same members, others untouched')
    ex.run(st, 'bfdev_heap_fixup', [Ptr(h.root), P(x), Fn('cmp'), P(fresh('pd'))], done)


def t_swap(T):
    h = H(T)
    ex, st = h.ex, h.st
    c = h.new('c')
    ex.inputs['c'] = c
    n = h.n0
    st.assume(c >= 2, c <= n)
    h.around(st, c)
    h.set_foreign(st, n)
    A, pos = st.ghost['A'], st.ghost['pos']
    q = up(c)
    x, y = A(q), A(c)
    A1, pos1 = upd(upd(A, c, x), q, y), upd(upd(pos, x, c), y, q)

    def done(s, r):
        shape_goal(h, ex, s, n, A1, pos1)
        ex.prove(s, And(*[ex.getmap(s, m).sel(h.y) == h.ym[m] for m in MAPS]), 'other nodes untouched')
    ex.run(st, 'parent_swap', [Ptr(h.root), P(x), P(y)], done)


def t_erase(T):
    h = H(T)
    ex, st = h.ex, h.st
    p = h.new('p')
    ex.inputs['p'] = p
    n = h.n0
    st.assume(p >= 1, p <= n)
    st.ghost['p'] = p
    h.around(st, p)
    A0 = st.ghost['A']

    def pre(i):
        rk = lambda j: h.rank(A0(j))
        g = And(i >= 2, i <= n)
        return And(Imp(And(g, i != p, up(i) != p), rk(i) >= rk(up(i))), Imp(And(g, up(i) == p, p >= 2), rk(i) >= rk(up(p))))
    st.assume(h.all(pre, label='order'))
    h.set_foreign(st, n)
    h.swap_specs()

    def fix(ex, st, a, inst):
        # the contract proved by the fixup task, at position p
        i = h.new('i')
        s = st.copy()
        h.around(s, i)
        ex.prove(s, term(a[1]) == st.ghost['A'](p), 'fixup starts at the exempted node')
        ex.prove(s, h.ordered(s, i, n, p), 'fixup precondition')
        ex.prove(s, h.root_ok(s, n), 'fixup precondition: root')
        ex.prove(s, h.shape(s, i, n), 'fixup precondition: shape')
        st.ghost['fixed'] = True
        h.arrays(st)
        for m in MAPS:
            ex.setmap(st, m, Base(m + '.2', 64))
        st.mem[h.root.id] = {0: (8, P(fresh('r2'))), 8: (8, fresh('c2'))}
        st.assume(h.root_ok(st, n), h.shapes(st, n), h.orders(st, n), h.foreign(st))
        return None
    ex.contracts['bfdev_heap_fixup'] = fix

    def done(s, r):
        shape_goal(h, ex, s, n)
        order_goal(h, ex, s, n)
        ex.prove(s, h.foreign(s), 'same members, others untouched')
    ex.run(st, 'bfdev_heap_erase', [Ptr(h.root), P(st.ghost['A'](p)), Fn('cmp'), P(fresh('pd'))], done)


def find_spec(h):
    h.walk_spec('bfdev_heap_find', 'node', lambda st, L: L.t('index'), False)


def t_find(T):
    h = H(T, ints=False)
    ex, st = h.ex, h.st
    i = fresh('index')
    ex.inputs['index'] = i
    st.assume(i >= 1, i <= h.n0)
    st.ghost['m'] = bv(1)
    find_spec(h)

    def done(s, r):
        ex.prove(s, term(r) == s.ghost['A'](i), 'finds the node at that position')
    ex.run(st, 'bfdev_heap_find', [Ptr(h.root), i], done)
    # level order: first, then the successive positions, then the end
    h = H(T, ints=False)
    ex, st = h.ex, h.st
    c = fresh('c')
    st.assume(ULT(c, h.n0))
    st.ghost['m'] = bv(1)
    ix = ex.region(st, 'cells', 'ix', 8, content={0: (8, c)})
    h.walk_spec('bfdev_heap_next', 'node', lambda st, L: ex.cells_get(st, ix, 0) + 1, False)

    def done2(s, r):
        ex.prove(s, term(r) == If(c + 2 <= h.n0, s.ghost['A'](c + 2), bv(0)), 'the next position, or the end')
        ex.prove(s, ex.cells_get(s, ix, 0) == c + 1, 'the counter advances')
    ex.run(st, 'bfdev_heap_next', [Ptr(h.root), Ptr(ix)], done2)
    h = H(T, ints=False)
    ex, st = h.ex, h.st
    ix = ex.region(st, 'cells', 'ix', 8, content={0: (8, fresh('x'))})

    def done3(s, r):
        ex.prove(s, term(r) == If(h.n0 == 0, bv(0), s.ghost['A'](bv(1))), 'starts at the root')
        ex.prove(s, ex.cells_get(s, ix, 0) == 0, 'the counter starts')
    ex.run(st, 'bfdev_heap_first', [Ptr(h.root), Ptr(ix)], done3)


def t_insert(dbg):
    def t(T):
        h = H(T, dbg, False)
        ex, st = h.ex, h.st
        n = h.n0
        x = fresh('x')
        st.assume(x != 0)
        st.assume(h.all(lambda i, A=st.ghost['A']: Imp(And(i >= 1, i <= n), A(i) != x)))
        st.assume(h.all(lambda i, A=st.ghost['A']: h.ordered(st, i, n, A=A), label='order'))
        st.ghost['m'] = bv(1)
        h.pp = None
        A0, pos0 = st.ghost['A'], st.ghost['pos']
        A1, pos1 = upd(A0, n + 1, x), upd(pos0, x, n + 1)
        h.around(st, n, n + 1)
        ex.loops[('bfdev_heap_parent', 0)] = parent_loop(h)

        def fix(ex, st, a, inst):
            i = h.new('i')
            s = st.copy()
            h.around(s, i, n + 1)
            ex.prove(s, term(a[1]) == x, 'fixup of the new node')
            ex.prove(s, h.root_ok(s, n + 1, A1), 'linked: root and count')
            ex.prove(s, h.shape(s, i, n + 1, A1, pos1), 'linked at the next free position')
            ex.prove(s, h.ordered(s, i, n + 1, n + 1, A=A1), 'fixup precondition')
            y = fresh('y')
            s = st.copy()
            s.assume(h.all(lambda i: Imp(And(i >= 1, i <= n), A0(i) != y)), y != x)
            h.around(s, n + 1)
            for m in MAPS:
                ex.prove(s, ex.getmap(s, m).sel(y) == ex.init_maps[m].sel(y), 'other nodes untouched')
            st.ghost['fixed'] = True
            return None
        ex.contracts['bfdev_heap_fixup'] = fix

        def done(s, r):
            if not s.ghost.get('fixed'):
                ex.prove(s, False, 'insert ends with the fixup')
        ex.run(st, 'v_insert', [Ptr(h.root), P(x), Fn('cmp'), P(fresh('pd'))], done)
    return t


def parent_loop(h):
    def inv(ex, st, L):
        d = z3.ZeroExt(32, L.t('depth'))
        n = h.n0
        v = n + 1
        m = SHR(v, d)
        st.ghost['m'] = m
        st.assume(Imp(ULT(d, bv(64)), shr_facts(SHR, v, d)))
        st.hint(D, S(up(m)), m)
        A = st.ghost['A']
        a = A(up(m))
        out = [ULT(d, bv(64)), m >= 1, n != 0, h.root_ok(st, n),
               term(L['link']) == If(m == 1, term(Ptr(h.root)), If(m & 1 == 1, a + 16, a + 8))]
        q = L['parentp']
        c = st.mem[q.reg.id].get(0)
        if c is not None:
            out.append(Imp(m != 1, term(c[1]) == a))
        return out
    return LoopSpec(inv=inv, ghosts=['m'], shape=lambda ex, st, rid, o, samples: P(fresh('pp')) if any(isinstance(x, Ptr) for x in samples) else None, decreases=lambda ex, st, L: z3.ZeroExt(32, L.t('depth')))


def t_delete(T):
    for dbg in (False, True):
        h = H(T, dbg)
        ex, st = h.ex, h.st
        n = h.n0
        p = h.new('p')
        ex.inputs['p'] = p
        st.assume(p >= 1, p <= n)
        st.assume(h.all(lambda i, A=st.ghost['A']: h.ordered(st, i, n, A=A), label='order'))
        A0, pos0 = st.ghost['A'], st.ghost['pos']
        x, last = A0(p), A0(n)
        A1, pos1 = upd(A0, p, last), upd(pos0, last, p)
        h.around(st, p, n)
        if dbg:
            for m, f in zip((LE, RI, PA), ('v_poison1', 'v_poison2', 'v_poison3')):
                pv = []
                s = State()
                ex.run(s, f, [], lambda s, r: pv.append(term(r)))
                st.assume(h.all(lambda i, v=pv[0]: A0(i) != v))
            ex.assumed.add('heap nodes do not live at the poison addresses')

        def find(ex, st, a, inst):
            # proved by the find task
            ex.prove(st, term(a[1]) == h.c0, 'looks up the last position')
            st.hint(D, n)
            return P(A0(n))
        ex.contracts['bfdev_heap_find'] = find

        def settled(s):
            """the members without x, with the last node in its place"""
            h.around(s, p, n)
            i = h.new('i')
            h.around(s, i)
            ex.prove(s, h.root_ok(s, n - 1, A1), 'removed: root and count')
            ex.prove(s, h.shape(s, i, n - 1, A1, pos1), 'removed: the last node takes the place')
            y = fresh('y')
            s2 = s.copy()
            s2.assume(h.all(lambda i: Imp(And(i >= 1, i <= n), A0(i) != y)))
            for m in MAPS:
                ex.prove(s2, ex.getmap(s2, m).sel(y) == ex.init_maps[m].sel(y), 'other nodes untouched')
            return i

        def erase(ex, st, a, inst):
            s = st.copy()
            ex.prove(s, And(term(a[1]) == last, p != n), 'rebalances the moved node')
            i = settled(s)
            rk = lambda j: h.rank(A1(j))
            g = And(i >= 2, i <= n - 1)
            ex.prove(s, And(Imp(And(g, i != p, up(i) != p), rk(i) >= rk(up(i))), Imp(And(g, up(i) == p, p >= 2), rk(i) >= rk(up(p)))), 'erase precondition')
            st.ghost['fixed'] = True
            return None
        ex.contracts['bfdev_heap_erase'] = erase

        def done(s, r):
            if not s.ghost.get('fixed'):
                ex.prove(s, p == n, 'only the last node goes without rebalancing')
                # poison stores touch the removed node only
                i = settled(s)
                ex.prove(s, h.ordered(s, i, n - 1, A=A1), 'still ordered')
        ex.run(st, 'v_delete', [Ptr(h.root), P(x), Fn('cmp'), P(fresh('pd'))], done)


TASKS = [('swap', t_swap), ('fixup', t_fixup), ('erase', t_erase), ('find', t_find), ('insert', t_insert(False)), ('insert-debug', t_insert(True)), ('shift', t_shift), ('delete', t_delete)]
