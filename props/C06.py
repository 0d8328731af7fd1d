"""Red-black tree over a ghost in-order sequence.

at: position -> node and ord: node -> position number the members 0..N-1 in order; [lo, hi] is the
range of positions in the subtree of a node; bh its black height.  Every invariant is local to a
node and its neighbours, so that in-order walk = the sequence follows by induction on hi-lo."""
from .lib import *
from .listlib import I
TU, SRC = '/verif/harness/tu_rb.c', 'src/rbtree.c'
HARNESS = dict(src='h_C06.c', what='insertions, deletions, replacements (plain, cached, augmented) with links, order, colours, black heights, traversals and lookups checked against a sorted array', bound='up to 200 nodes, 20,000 histories per job')
ASSUMPTIONS = ['the comparator is a strict total order of distinct keys (a rank per node), and does not change the tree',
               'a node handed to insert is not in a tree; a node handed to delete or replace is in this one; augmentation callbacks do not touch the links']
BOUNDED = 'preorder and postorder traversals, the cached variants beyond their leftmost update and the augmented values run in the harness only'
B64, INT, BOOL = z3.BitVecSort(64), z3.IntSort(), z3.BoolSort()
PA, LE, RI, CO = ('bfdev_rb_node.%d' % o for o in (0, 8, 16, 24))
MAPS = (PA, LE, RI, CO)
D = 'n'


def P(x):
    return Ptr(None, x)


def upd(f, k, v):
    return lambda x: If(x == k, v, f(x))


class G:
    """the ghost functions"""
    KEYS = ('M', 'lo', 'hi', 'ord', 'bh', 'at')

    def __init__(g, **kw):
        g.__dict__.update(kw)

    def but(g, **kw):
        d = dict(g.__dict__)
        d.update(kw)
        return G(**d)


def fresh_g(pre=''):
    F = lambda n, *s: z3.Function(str(fresh(pre + n)), *s)
    return G(M=F('M', B64, BOOL), lo=F('lo', B64, INT), hi=F('hi', B64, INT), ord=F('ord', B64, INT), bh=F('bh', B64, INT), at=F('at', INT, B64), N=fresh(pre + 'N', 'int'))


class V:
    """view of the tree in one state: maps frozen"""

    def __init__(v, rb, st, root=None):
        v.ex = rb.ex
        v.pa, v.le, v.ri, v.co = (rb.ex.getmap(st, m, 8 if m == CO else 64) for m in MAPS)
        v.root = term(rb.ex.cells_get(st, rb.root, 0)) if root is None else root

    def black(v, x):
        return v.co.sel(x) == 1

    def red(v, x):
        return v.co.sel(x) == 0


class RB:
    def __init__(r, T, *srcs):
        r.ex = ex = T.ex(*(srcs or (SRC,)))
        r.st = st = State()
        for m in MAPS:
            ex.getmap(st, m, 8 if m == CO else 64)
            ex.map_dom[m] = D
        r.g = g = fresh_g()
        ex.inputs['N'] = g.N
        rt = fresh('root')
        r.lm = fresh('leftmost')
        r.root = ex.region(st, 'cells', 'root', 16, content={0: (8, P(rt)), 8: (8, P(r.lm))})
        r.cb = ex.region(st, 'cells', 'cb', 24, content={0: (8, Fn('cb_rotate')), 8: (8, Fn('cb_copy')), 16: (8, Fn('cb_propagate'))})
        for n in ('cb_rotate', 'cb_copy', 'cb_propagate', 'bfdev_cbfunc_noop'):
            ex.contracts[n] = lambda ex, st, a, i: None
        ex.contracts['bfdev_log_core'] = lambda ex, st, a, i: bv(0, 32)
        st.assume(g.N >= 0)
        st.hint(D, rt)
        ex.raw_struct = 'bfdev_rb_node'
        ex.struct_copy_hook = struct_copy
        ex.resolve_untagged = r.link
        r.rank = z3.Function('rank', B64, INT)

    def y_out(r):
        """a node outside the tree, whose cells must not change"""
        r.y = fresh('y')
        r.st.assume(Not(r.g.M(r.y)))
        r.ym = {m: r.ex.getmap(r.st, m).sel(r.y) for m in MAPS}

    def untouched(r, st):
        return And(*[r.ex.getmap(st, m).sel(r.y) == r.ym[m] for m in MAPS])

    def sym_link(r, st, p, size):
        raise Abort('untagged access')

    def link(r, st, p, size):
        q, side = st.ghost['lp'], st.ghost['ls']
        r.ex.prove(st, p.off == If(q == 0, term(Ptr(r.root)), If(side, q + 16, q + 8)), 'known link cell')
        return [(q == 0, Ptr(r.root)), (And(q != 0, side), node(q, 16)), (And(q != 0, Not(side)), node(q, 8))]

    # invariants ---------------------------------------------------------------------
    def parts(r, v, g, x, red_ok=None, short=None):
        """[(name, formula)] at node x. red_ok: this node may be red below anything (fixup);
        short=(p, c): at node p the side of child c is one black node short (erase)"""
        l, ri, p = v.le.sel(x), v.ri.sel(x), v.pa.sel(x)
        H = lambda c: If(c == 0, I(0), g.bh(c))
        m = lambda f: Imp(g.M(x), f)
        out = [('links', m(And(x != 0,
                               Imp(l != 0, And(g.M(l), v.pa.sel(l) == x)), Imp(ri != 0, And(g.M(ri), v.pa.sel(ri) == x)),
                               Imp(p != 0, And(g.M(p), Or(v.le.sel(p) == x, v.ri.sel(p) == x))), (p == 0) == (v.root == x)))),
               ('order', m(And(g.lo(x) <= g.ord(x), g.ord(x) <= g.hi(x), g.lo(x) >= 0, g.hi(x) < g.N, g.at(g.ord(x)) == x,
                               If(l == 0, g.lo(x) == g.ord(x), And(g.lo(l) == g.lo(x), g.hi(l) == g.ord(x) - 1)),
                               If(ri == 0, g.hi(x) == g.ord(x), And(g.hi(ri) == g.hi(x), g.lo(ri) == g.ord(x) + 1)),
                               Imp(v.root == x, And(g.lo(x) == 0, g.hi(x) == g.N - 1)))))]
        okc = lambda c: Or(c == 0, v.black(c), *([c == red_ok] if red_ok is not None else []))
        rootblack = Imp(p == 0, Or(v.black(x), *([x == red_ok] if red_ok is not None else [])))
        out.append(('colours', m(And(Or(v.red(x), v.black(x)), Imp(v.red(x), And(okc(l), okc(ri))), rootblack))))
        bal = And(H(l) == H(ri), g.bh(x) == H(l) + If(v.black(x), 1, 0))
        if short is not None:
            sp, sc = short
            def_ = And(If(l == sc, And(H(l) + 1 == H(ri), ri != sc), And(H(ri) + 1 == H(l), ri == sc)), g.bh(x) == If(l == sc, H(ri), H(l)) + If(v.black(x), 1, 0))
            bal = If(x == sp, def_, bal)
        out.append(('balance', m(And(g.bh(x) >= 0, bal))))
        return out

    def holds(r, v, g, **kw):
        return [Forall(D, lambda x: And(*[f for _, f in r.parts(v, g, x, **kw)]), label='tree')]

    def base(r, v, g):
        return And(Imp(v.root == 0, g.N == 0), Imp(v.root != 0, And(g.M(v.root), v.pa.sel(v.root) == 0)))

    def goal(r, s, g, label, hints=(), **kw):
        ex = r.ex
        v = V(r, s)
        ex.prove(s, r.base(v, g), label + ': root')
        x = fresh('x')
        s2 = s.copy()
        iv = V0(r)
        for w in (v, iv):
            s2.hint(D, x, w.le.sel(x), w.ri.sel(x), w.pa.sel(x))
        for h in hints:
            s2.hint(D, h)
        for n, f in r.parts(v, g, x, **kw):
            ex.prove(s2, f, '%s: %s' % (label, n))

    def seq_goal(r, s, g, label):
        """every position is occupied"""
        i = fresh('i', 'int')
        s2 = s.copy()
        s2.hint('i', i, i + 1, i - 1)
        r.ex.prove(s2, Imp(And(i >= 0, i < g.N), And(g.M(g.at(i)), g.ord(g.at(i)) == i)), label + ': positions numbered 0..N-1')

    def seq(r, g):
        return Forall('i', lambda i: Imp(And(i >= 0, i < g.N), And(g.M(g.at(i)), g.ord(g.at(i)) == i)), widths=['int'])

    def recompute(r, v, g, touched, depth=5):
        """black heights after a change of the touched nodes"""
        def f(x, k=depth):
            if k == 0:
                return g.bh(x)
            l = v.le.sel(x)
            return If(Or(*[x == t for t in touched]), If(l == 0, I(0), f(l, k - 1)) + If(v.black(x), 1, 0), g.bh(x))
        return f

    # rotations ----------------------------------------------------------------------
    def rotate(r, st, left, n, color, ccolor):
        """exact effect of one rotation (proved by the rotate task), with the ghost ranges moved along"""
        ex = r.ex
        v = V(r, st)
        down, up_ = (v.ri, v.le) if left else (v.le, v.ri)
        DN, UP = (RI, LE) if left else (LE, RI)
        s = down.sel(n)
        c = up_.sel(s)
        p = v.pa.sel(n)
        st.hint(D, n, s, c, p)
        put = lambda m, k, x: ex.setmap(st, m, Store(ex.getmap(st, m), (k,), x))
        put(DN, n, c)
        put(UP, s, n)
        put(PA, s, p)
        put(PA, n, s)
        setc = color != 2
        co = ex.getmap(st, CO)
        nc = v.co.sel(n)
        put(CO, s, If(setc, nc, co.sel(s)))
        put(CO, n, If(setc, z3.Extract(7, 0, color), nc))
        pa = ex.getmap(st, PA)
        put(PA, c, If(c != 0, n, pa.sel(c)))
        co = ex.getmap(st, CO)
        put(CO, c, If(And(c != 0, ccolor != 2), z3.Extract(7, 0, ccolor), co.sel(c)))
        le, ri = ex.getmap(st, LE), ex.getmap(st, RI)
        isl = And(p != 0, le.sel(p) == n)
        put(LE, p, If(isl, s, le.sel(p)))
        put(RI, p, If(And(p != 0, Not(isl)), s, ri.sel(p)))
        nr = P(If(p == 0, s, v.root))
        if st.frames:
            ex.store(st, Ptr(r.root), nr, ('ptr',))
        else:
            st.mem[r.root.id] = {0: (8, nr)}
        return v, s, c, p

    def rot_contracts(r):
        def h(left):
            def f(ex, st, a, inst):
                g = st.ghost['g']
                n = term(a[1])
                v, s, c, p = r.rotate(st, left, n, term(a[2]), term(a[3]))
                ex.prove(st, And(n != 0, s != 0), 'rotation of a node with that child')
                if left:
                    st.ghost['g'] = g.but(lo=upd(g.lo, s, g.lo(n)), hi=upd(upd(g.hi, s, g.hi(n)), n, g.ord(s) - 1))
                else:
                    st.ghost['g'] = g.but(hi=upd(g.hi, s, g.hi(n)), lo=upd(upd(g.lo, s, g.lo(n)), n, g.ord(s) + 1))
                st.ghost['touch'] = st.ghost['touch'] + [n, s]
                return P(c)
            return f
        r.ex.contracts['left_rotate'], r.ex.contracts['right_rotate'] = h(True), h(False)


class V0(V):
    def __init__(v, rb):
        v.ex = rb.ex
        v.pa, v.le, v.ri, v.co = (rb.ex.init_maps[m] for m in MAPS)


def node(b, o):
    return Ptr(None, b + bv(o), tag=('bfdev_rb_node', o), base=b)


def struct_copy(ex, st, d, s, c):
    assert c == 32 and d.reg is None and s.reg is None
    b = lambda p: p.base if p.tag is not None else p.off
    for o, ty in ((0, ('ptr',)), (8, ('ptr',)), (16, ('ptr',)), (24, ('i', 8))):
        ex.store(st, node(b(d), o), ex.load(st, node(b(s), o), ty), ty)
    return d


# ------------------------------------------------------------------------------- tasks
def t_rotate(left):
    def t(T):
        if 1:
            r = RB(T)
            ex, st = r.ex, r.st
            n = fresh('n')
            color, cc = fresh('color', 32), fresh('ccolor', 32)
            for k in (color, cc):
                st.assume(ULE(k, bv(2, 32)))
            v0 = V(r, st)
            s = (v0.ri if left else v0.le).sel(n)
            c = (v0.le if left else v0.ri).sel(s)
            p = v0.pa.sel(n)
            # a tree: the nodes around the rotation are distinct
            st.assume(n != 0, s != 0, z3.Distinct(n, s), c != n, c != s, p != n, p != s, Or(c == 0, c != p))
            st.assume(*[ULE(v0.co.sel(k), bv(1, 8)) for k in (n, s, c)])
            e = st.copy()
            r.rotate(e, left, n, color, cc)

            def done(q, res):
                x = fresh('x')
                for m in MAPS:
                    ex.prove(q, Or(x == 0, ex.getmap(q, m).sel(x) == ex.getmap(e, m).sel(x)), 'rotation updates %s as specified' % m)
                ex.prove(q, term(ex.cells_get(q, r.root, 0)) == term(ex.cells_get(e, r.root, 0)), 'root as specified')
                ex.prove(q, term(res) == c, 'returns the moved child')
            ex.run(st, 'left_rotate' if left else 'right_rotate', [Ptr(r.root), P(n), color, cc, Ptr(r.cb)], done)
    return t


def t_fixup(T):
    r = RB(T)
    ex, st = r.ex, r.st
    g = r.g
    x = fresh('node')
    v = V(r, st)
    st.ghost.update(g=g, touch=[], bh=g.bh)
    st.hint(D, x)
    st.assume(g.M(x), v.red(x), r.base(v, g), *r.holds(v, g, red_ok=x))
    r.y_out()
    r.rot_contracts()

    def inv(ex, st, L):
        v, n = V(r, st), term(L['node'])
        g2 = g.but(bh=st.ghost['bh'])
        st.ghost['g'] = g2
        st.ghost['touch'] = []
        st.hint(D, n, v.pa.sel(n), v.pa.sel(v.pa.sel(n)))
        return [g.M(n), v.red(n), r.base(v, g2), r.untouched(st)] + r.holds(v, g2, red_ok=n)

    def back(ex, st, L):
        # case 1: the parent and the uncle turned black
        v = V(r, st)
        n = term(L['node'])
        bh = st.ghost['bh']
        l, ri = v.le.sel(n), v.ri.sel(n)
        st.ghost['bh'] = upd(upd(bh, l, bh(l) + 1), ri, bh(ri) + 1)
        st.hint(D, n, l, ri, v.pa.sel(n))
    ex.loops[('bfdev_rb_fixup_augmented', 0)] = LoopSpec(inv=inv, ghosts=['bh'], on_back=back, decreases=lambda ex, st, L: g.N - (g.hi(term(L['node'])) - g.lo(term(L['node']))))

    def done(s, res):
        v = V(r, s)
        g3 = s.ghost['g']
        # the last node looked at: its colour may have been set
        touch = s.ghost['touch'] + [v.root]
        g3 = g3.but(bh=r.recompute(v, g3, touch))
        r.goal(s, g3, 'balanced', touch)
        ex.prove(s, r.untouched(s), 'other nodes untouched')
    ex.run(st, 'bfdev_rb_fixup_augmented', [Ptr(r.root), P(x), Ptr(r.cb)], done)


def erase_case(r, k):
    """left or right side short, sibling red or black"""
    def f(ex, st, L):
        v, q, n = V(r, st), term(L['parent']), term(L['node'])
        right = v.ri.sel(q) == n
        sib = If(right, v.le.sel(q), v.ri.sel(q))
        return And(right == (k & 1 == 1), v.red(sib) == (k & 2 == 2))
    return f


def t_erase(k):
    return lambda T: do_erase(T, k)


def do_erase(T, k):
    r = RB(T)
    ex, st = r.ex, r.st
    g = r.g
    p, c = fresh('parent'), bv(0)
    v = V(r, st)
    st.ghost.update(g=g, touch=[], bh=g.bh)
    st.hint(D, p, v.le.sel(p), v.ri.sel(p), v.pa.sel(p))
    st.assume(g.M(p), Or(v.le.sel(p) == 0, v.ri.sel(p) == 0), r.base(v, g), *r.holds(v, g, short=(p, c)))
    r.y_out()
    r.rot_contracts()

    def inv(ex, st, L):
        v, q, n = V(r, st), term(L['parent']), term(L['node'])
        g2 = g.but(bh=st.ghost['bh'])
        st.ghost['g'] = g2
        st.ghost['touch'] = []
        st.hint(D, q, n, v.le.sel(q), v.ri.sel(q), v.pa.sel(q))
        return [g.M(q), Or(n == 0, And(g.M(n), v.black(n), v.pa.sel(n) == q)), Or(v.le.sel(q) == n, v.ri.sel(q) == n), r.base(v, g2), r.untouched(st)] + r.holds(v, g2, short=(q, n))

    def back(ex, st, L):
        # case 2 with a black parent: the sibling turned red, the parent is short now
        v = V(r, st)
        n = term(L['node'])
        bh = st.ghost['bh']
        sib = term(L['sibling'])
        st.ghost['bh'] = upd(upd(bh, sib, bh(sib) - 1), n, bh(n) - 1)
        st.hint(D, n, sib, v.pa.sel(n), v.le.sel(n), v.ri.sel(n))
    ex.loops[('bfdev_rb_erase_augmented', 0)] = LoopSpec(inv=inv, ghosts=['bh'], on_back=back, decreases=lambda ex, st, L: g.N - (g.hi(term(L['parent'])) - g.lo(term(L['parent']))))
    ex.loops[('bfdev_rb_erase_augmented', 0)].case = erase_case(r, k)

    def done(s, res):
        v = V(r, s)
        g3 = s.ghost['g']
        # the nodes whose colour may have changed
        touch = list(s.ghost['touch']) + [x for x in (loc(ex, s, n) for n in ('sibling', 'parent', 'node', 'tmp1', 'tmp2')) if x is not None]
        g3 = g3.but(bh=r.recompute(v, g3, touch))
        r.goal(s, g3, 'rebalanced', touch)
        ex.prove(s, r.untouched(s), 'other nodes untouched')

    ex.run(st, 'bfdev_rb_erase_augmented', [Ptr(r.root), P(p), Ptr(r.cb)], done)


def loc(ex, s, name, default=None):
    try:
        return term(L(ex, s)[name])
    except Abort:
        return default


# removal ------------------------------------------------------------------------
def removed(r, g, v, n):
    """the ghost after taking node n out: (new ghost, node to move up, orphan)"""
    l, ri = v.le.sel(n), v.ri.sel(n)
    two = And(l != 0, ri != 0)
    d = g.ord(n)
    e = If(two, d + 1, d)
    s = g.at(d + 1)
    dn = lambda p: p - If(p > e, 1, 0)
    M = lambda x: And(g.M(x), x != n)
    lo = lambda x: If(And(two, x == s), dn(g.lo(n)), dn(g.lo(x)))
    hi = lambda x: (lambda h: h - If(h >= e, 1, 0))(If(And(two, x == s), g.hi(n), g.hi(x)))
    od = lambda x: If(And(two, x == s), d, dn(g.ord(x)))
    at = lambda i: If(And(two, i == d), s, If(i >= e, g.at(i + 1), g.at(i)))
    only = If(l == 0, ri, l)
    orphan = If(two, v.ri.sel(s), only)
    bh = lambda x: If(And(two, x == s), g.bh(n), If(And(orphan != 0, x == orphan), g.bh(x) + If(v.red(orphan), 1, 0), g.bh(x)))
    return G(M=M, lo=lo, hi=hi, ord=od, at=at, bh=bh, N=g.N - 1), s, orphan, two


def setup_remove(T, *srcs):
    r = RB(T, *srcs)
    ex, st, g = r.ex, r.st, r.g
    n = fresh('node')
    v = V(r, st)
    l, ri = v.le.sel(n), v.ri.sel(n)
    st.hint(D, n, l, ri, v.pa.sel(n))
    st.assume(g.M(n), r.base(v, g), *r.holds(v, g))
    st.assume(r.seq(g))
    g1, s, orphan, two = removed(r, g, v, n)
    st.hint(D, s, v.ri.sel(s), v.pa.sel(s), v.le.sel(s), orphan, v.le.sel(orphan), v.ri.sel(orphan))
    st.hint('i', g.ord(n) + 1)
    r.y_out()
    return r, n, v, g1, s, orphan


def short_of(v, g, p):
    """the child side of p that lost a black node"""
    H = lambda c: If(c == 0, I(0), g.bh(c))
    return If(v.le.sel(p) == 0, v.le.sel(p), v.ri.sel(p))


def remove_post(r, q, res, g1, touch, v0):
    ex = r.ex
    v = V(r, q)
    s1 = q.copy()
    s1.assume(res == 0)
    if ex.feasible(s1):
        r.goal(s1, g1, 'removed, balanced', touch)
    s2 = q.copy()
    s2.assume(res != 0)
    if ex.feasible(s2):
        s2.hint(D, res, v.le.sel(res), v.ri.sel(res))
        ex.prove(s2, And(g1.M(res), Or(v.le.sel(res) == 0, v.ri.sel(res) == 0)), 'rebalances at a member with a free side')
        r.goal(s2, g1, 'removed, one side short', touch, short=(res, bv(0)))
    r.seq_goal(q, g1, 'removed')


def do_remove(T, k):
    r, n, v, g1, s, orphan = setup_remove(T)
    ex, st, g = r.ex, r.st, r.g
    l, ri = v.le.sel(n), v.ri.sel(n)
    two = And(l != 0, ri != 0)
    st.assume([Not(two), And(two, v.le.sel(ri) == 0), And(two, v.le.sel(ri) != 0)][k])

    def inv(ex, st, L):
        p, c1 = term(L['successor']), term(L['child1'])
        st.hint(D, p, c1, v.pa.sel(p))
        return [c1 != 0, c1 == v.le.sel(p), g.M(p), g.lo(p) == g.ord(n) + 1, g.hi(p) <= g.hi(n), p != n]
    ex.loops[('bfdev_rb_remove_augmented', 0)] = LoopSpec(inv=inv, decreases=lambda ex, st, L: g.hi(term(L['successor'])))

    def done(q, res):
        touch = [n, s, orphan, l, ri, v.pa.sel(n), v.pa.sel(s)]
        for t in touch:
            q.hint(D, t)
        remove_post(r, q, term(res), g1, touch, v)
        # the cells of the removed node and of nodes outside are not written
        ex.prove(q, r.untouched(q), 'other nodes untouched')
    ex.run(st, 'bfdev_rb_remove_augmented', [Ptr(r.root), P(n), Ptr(r.cb)], done)


def t_remove(k):
    return lambda T: do_remove(T, k)


# search and insertion -----------------------------------------------------------
def ordered(r, g):
    """the sequence is strictly increasing in the order of the comparator"""
    return Forall([D, D], lambda a, b: Imp(And(g.M(a), g.M(b), g.ord(a) < g.ord(b)), r.rank(a) < r.rank(b)))


def setup_search(T, *srcs):
    r = RB(T, *srcs)
    ex, st, g = r.ex, r.st, r.g
    v = V(r, st)
    st.assume(r.base(v, g), *r.holds(v, g))
    st.assume(ordered(r, g), r.seq(g))
    st.assume(Forall(D, lambda y: Imp(g.M(y), And(y != 0, ULE(y, bv(2**64 - 64))))))  # nodes are objects
    r.y_out()
    return r, v


def cmp_contract(r, name, key, flip=False):
    def f(ex, st, a, inst):
        y = term(a[1] if not flip else a[0])
        st.hint(D, y)
        st.ghost['last'] = y
        k = st.ghost['k'] = fresh('cmp')
        d = (key - r.rank(y)) if not flip else (r.rank(y) - key)
        st.assume((k < 0) == (d < 0), (k > 0) == (d > 0))
        return k
    r.ex.contracts[name] = f


def place(g, lp, ls):
    return If(lp == 0, I(0), If(ls, g.ord(lp) + 1, g.ord(lp)))


def parent_loop(r, key, fn='bfdev_rb_parent'):
    g = r.g

    def cur(v, st):
        q, side = st.ghost['lp'], st.ghost['ls']
        return If(q == 0, v.root, If(side, v.ri.sel(q), v.le.sel(q)))

    def inv(ex, st, L):
        v = V(r, st)
        q, side = st.ghost['lp'], st.ghost['ls']
        c = cur(v, st)
        st.hint(D, q, c)
        out = [term(L['link']) == If(q == 0, term(Ptr(r.root)), If(side, q + 16, q + 8)), c != 0, Imp(q != 0, g.M(q)), g.M(c),
               Forall(D, lambda y: And(Imp(And(g.M(y), g.ord(y) < g.lo(c)), r.rank(y) < key), Imp(And(g.M(y), g.ord(y) > g.hi(c)), r.rank(y) > key)))]
        lm = L['leftmost']
        out.append(z3.Extract(0, 0, term(lm)) == If(g.lo(c) == 0, bv(1, 1), bv(0, 1)) if not z3.is_bool(lm) else lm == (g.lo(c) == 0))
        pp = L['parentp']
        e = st.mem[pp.reg.id].get(0)
        if e is not None:
            out.append(Imp(q != 0, term(e[1]) == q))
        return out

    def back(ex, st, L):
        v = V(r, st)
        c = cur(v, st)
        st.hint(D, c, v.le.sel(c), v.ri.sel(c))
        st.ghost['lp'], st.ghost['ls'] = c, S(st.ghost['k'] > 0)
    r.st.ghost.update(lp=bv(0), ls=z3.BoolVal(False))
    r.ex.loops[(fn, 0)] = LoopSpec(inv=inv, ghosts=['lp', 'ls'], on_back=back,
                                   shape=lambda ex, st, rid, o, samples: P(fresh('pp')) if any(isinstance(x, Ptr) and x.reg is None and x.tag is None for x in samples) else None,
                                   decreases=lambda ex, st, L: g.hi(cur(V(r, st), st)) - g.lo(cur(V(r, st), st)))


def inserted(g, x, e, ls):
    up1 = lambda p, c: p + If(c, 1, 0)
    return G(M=lambda y: Or(y == x, g.M(y)), N=g.N + 1, bh=upd(g.bh, x, I(0)),
             lo=lambda y: If(y == x, e, up1(g.lo(y), If(ls, g.lo(y) >= e, g.lo(y) > e))),
             hi=lambda y: If(y == x, e, up1(g.hi(y), If(ls, g.hi(y) >= e - 1, g.hi(y) >= e))),
             ord=lambda y: If(y == x, e, up1(g.ord(y), g.ord(y) >= e)),
             at=lambda i: If(i == e, x, If(i < e, g.at(i), g.at(i - 1))))


def t_parent(T):
    r, v = setup_search(T)
    ex, st, g = r.ex, r.st, r.g
    key = fresh('key', 'int')
    cmp_contract(r, 'cmp', key)
    parent_loop(r, key)
    pp = ex.region(st, 'cells', 'parentp', 8)
    lm = ex.region(st, 'cells', 'leftmostp', 1)

    def done(s, res):
        for m in MAPS:
            ex.prove(s, z3.BoolVal(ex.getmap(s, m) is ex.init_maps[m]), 'the search changes nothing')
        k = term(res)
        a = s.copy()
        a.assume(k == 0)
        if ex.feasible(a):
            y = s.ghost['last']
            ex.prove(a, And(g.M(y), r.rank(y) == key), 'refused only when an equal key is present')
        b = s.copy()
        b.assume(k != 0)
        if ex.feasible(b):
            q = term(ex.cells_get(b, pp, 0))
            b.hint(D, q)
            side = k == q + 16
            e = place(g, q, side)
            ex.prove(b, If(q == 0, And(k == term(Ptr(r.root)), g.N == 0), And(g.M(q), Or(And(k == q + 8, v.le.sel(q) == 0), And(k == q + 16, v.ri.sel(q) == 0)))), 'a free link of the parent')
            y = fresh('y')
            b.hint(D, y)
            ex.prove(b, Imp(g.M(y), If(g.ord(y) < e, r.rank(y) < key, r.rank(y) > key)), 'the place keeps the order')
            ex.prove(b, (z3.Extract(0, 0, term(ex.cells_get(b, lm, 0))) == 1) == (e == 0), 'leftmost exactly at the front')
    ex.run(st, 'bfdev_rb_parent', [Ptr(r.root), Ptr(pp), P(fresh('x')), Fn('cmp'), P(fresh('pd')), Ptr(lm)], done)


def t_insert(dbg, cached=False):
    def t(T):
        r, v = setup_search(T, SRC, TU, 'src/rbtree-debug.c') if dbg else setup_search(T, SRC, T.mod(TU, ('V_NODEBUG',)))
        ex, st, g = r.ex, r.st, r.g
        x = fresh('x')
        st.assume(x != 0, Not(g.M(x)), r.y != x)
        st.hint(D, x)
        key = r.rank(x)
        cmp_contract(r, 'cmp', key)
        parent_loop(r, key)
        st.assume(r.lm == If(g.N == 0, bv(0), g.at(0)))
        st.hint('i', I(0), I(1))

        def fix(ex, st, a, inst):
            v1 = V(r, st)
            q = v1.pa.sel(x)
            ls = And(q != 0, v1.ri.sel(q) == x)
            e = place(g, q, ls)
            g1 = inserted(g, x, e, ls)
            ex.prove(st, term(a[1]) == x, 'fixup of the new node')
            st.hint(D, q)
            st.hint('i', e)
            ex.prove(st, v1.red(x), 'linked red')
            r.goal(st, g1, 'linked', [x, q], red_ok=x)
            s = st.copy()
            i = fresh('i', 'int')
            s.hint('i', i, i - 1)
            ex.prove(s, Imp(And(i >= 0, i < g1.N), And(g1.M(g1.at(i)), g1.ord(g1.at(i)) == i)), 'positions numbered 0..N')
            y = fresh('z')
            s = st.copy()
            s.hint(D, y)
            ex.prove(s, Imp(g.M(y), If(g.ord(y) < e, r.rank(y) < key, r.rank(y) > key)), 'the place keeps the order')
            ex.prove(st, r.untouched(st), 'other nodes untouched')
            st.ghost['fixed'] = g1
            return None
        ex.contracts['bfdev_rb_fixup_augmented'] = fix

        def done(s, res):
            ok = term(res) & 1 == 1 if not z3.is_bool(res) else res
            g1 = s.ghost.get('fixed', g)
            if cached:
                ex.prove(s, term(ex.cells_get(s, r.root, 8)) == If(g1.N == 0, bv(0), g1.at(0)), 'the cached first node is the first node')
            else:
                ex.prove(s, term(ex.cells_get(s, r.root, 8)) == r.lm, 'touches the root only')
            if s.ghost.get('fixed'):
                ex.prove(s, ok, 'reports the insertion')
            else:
                y = s.ghost['last']
                ex.prove(s, And(Not(ok), g.M(y), r.rank(y) == key), 'refused only when an equal key is present')
                for m in MAPS:
                    ex.prove(s, z3.BoolVal(ex.getmap(s, m) is ex.init_maps[m]), 'a refused insertion changes nothing')
        ex.run(st, 'v_cached_insert' if cached else 'v_insert', [Ptr(r.root), P(x), Fn('cmp'), P(fresh('pd'))], done)
    return t


def t_find(T):
    r, v = setup_search(T)
    ex, st, g = r.ex, r.st, r.g
    key = fresh('key', 'int')
    cmp_contract(r, 'find', key, True)

    def inv(ex, st, L):
        n = term(L['node'])
        st.hint(D, n)
        return [Or(n == 0, g.M(n)), Forall(D, lambda y: Imp(And(g.M(y), r.rank(y) == key), And(n != 0, g.lo(n) <= g.ord(y), g.ord(y) <= g.hi(n))))]
    ex.loops[('bfdev_rb_find', 0)] = LoopSpec(inv=inv, decreases=lambda ex, st, L: If(term(L['node']) == 0, I(0), g.hi(term(L['node'])) - g.lo(term(L['node'])) + 1))

    def done(s, res):
        y = fresh('y')
        s.hint(D, y)
        n = term(res)
        ex.prove(s, If(n == 0, Imp(g.M(y), r.rank(y) != key), And(g.M(n), r.rank(n) == key)), 'finds the key exactly when it is present')
    ex.run(st, 'bfdev_rb_find', [Ptr(r.root), P(fresh('k')), Fn('find')], done)


def t_walk(T):
    # leftmost / rightmost of a subtree
    for fn, f in (('bfdev_rb_left_far', lambda g: g.lo), ('bfdev_rb_right_far', lambda g: g.hi)):
        r, v = setup_search(T)
        ex, st, g = r.ex, r.st, r.g
        n0 = fresh('node')
        st.hint(D, n0)
        st.assume(g.M(n0))

        def inv(ex, st, L):
            n = term(L['node'])
            st.hint(D, n)
            return [g.M(n), f(g)(n) == f(g)(n0)]
        ex.loops[(fn, 0)] = LoopSpec(inv=inv, decreases=lambda ex, st, L: g.hi(term(L['node'])) - g.lo(term(L['node'])))

        def done(s, res):
            n = term(res)
            s.hint(D, n)
            ex.prove(s, And(g.M(n), g.ord(n) == f(g)(n0)), 'the extreme node of the subtree')
        ex.run(st, fn, [P(n0)], done)

    def far(r):
        g = r.g

        def h(f):
            def c(ex, st, a, inst):
                x = term(a[0])
                st.hint(D, x)
                ex.prove(st, g.M(x), 'descends from a member')
                y = fresh('far')
                st.hint(D, y)
                st.assume(g.M(y), g.ord(y) == f(x))
                return P(y)
            return c
        r.ex.contracts['bfdev_rb_left_far'], r.ex.contracts['bfdev_rb_right_far'] = h(g.lo), h(g.hi)
    for fn, d in (('bfdev_rb_next', 1), ('bfdev_rb_prev', -1)):
        r, v = setup_search(T)
        ex, st, g = r.ex, r.st, r.g
        far(r)
        x = fresh('node')
        st.hint(D, x)
        st.hint('i', g.ord(x) + d)
        st.assume(g.M(x))

        def inv(ex, st, L):
            n = term(L['node'])
            st.hint(D, n, v.pa.sel(n))
            return [g.M(n), (g.hi if d == 1 else g.lo)(n) == g.ord(x)]
        ex.loops[(fn, 0)] = LoopSpec(inv=inv, decreases=lambda ex, st, L: g.N - (g.hi(term(L['node'])) - g.lo(term(L['node']))))

        def done(s, res):
            n = term(res)
            s.hint(D, n)
            i = g.ord(x) + d
            ex.prove(s, n == If(And(i >= 0, i < g.N), g.at(i), bv(0)), 'the neighbour in the sequence, or none')
        ex.run(st, fn, [P(x)], done)
    for fn, pos in (('bfdev_rb_first', lambda g: I(0)), ('bfdev_rb_last', lambda g: g.N - 1)):
        r, v = setup_search(T)
        ex, st, g = r.ex, r.st, r.g
        far(r)
        st.hint('i', pos(g))

        def done(s, res):
            n = term(res)
            s.hint(D, n)
            ex.prove(s, n == If(g.N == 0, bv(0), g.at(pos(g))), 'the end of the sequence, or none')
        ex.run(st, fn, [Ptr(r.root)], done)


def t_replace(T):
    r, v = setup_search(T)
    ex, st, g = r.ex, r.st, r.g
    n, x = fresh('old'), fresh('new')
    st.assume(g.M(n), x != 0, Not(g.M(x)), r.y != x)
    st.hint(D, n, x, v.pa.sel(n), v.le.sel(n), v.ri.sel(n))
    sw = lambda f: upd(f, x, f(n))
    g1 = g.but(M=lambda y: Or(y == x, And(g.M(y), y != n)), lo=sw(g.lo), hi=sw(g.hi), ord=sw(g.ord), bh=sw(g.bh), at=upd(g.at, g.ord(n), x))

    def done(s, res):
        r.goal(s, g1, 'replaced', [n, x, v.pa.sel(n), v.le.sel(n), v.ri.sel(n)])
        r.seq_goal(s, g1, 'replaced')
        ex.prove(s, r.untouched(s), 'other nodes untouched')
    ex.run(st, 'bfdev_rb_replace', [Ptr(r.root), P(n), P(x)], done)


def t_delete(T, cached=False):
    """deletion is removal followed by rebalancing where removal says so"""
    for dbg in (False, True):
        for aug in ((False,) if cached else (False, True)):
            r = RB(T, SRC, TU, 'src/rbtree-debug.c') if dbg else RB(T, SRC, T.mod(TU, ('V_NODEBUG',)))
            ex, st, g = r.ex, r.st, r.g
            n, reb = fresh('node'), fresh('rebalance')
            st.assume(n != 0)
            nx = fresh('next')

            def nextc(ex, st, a, inst):
                ex.prove(st, And(term(a[0]) == n, z3.BoolVal('rem' not in st.ghost)), 'successor of that node, while it is linked')
                return P(nx)
            ex.contracts['bfdev_rb_next'] = nextc
            if dbg:
                for m, f in zip((LE, RI, PA), ('v_poison1', 'v_poison2', 'v_poison3')):
                    pv = []
                    ex.run(State(), f, [], lambda s, q: pv.append(term(q)))
                    st.assume(ex.getmap(st, m).sel(n) != pv[0])
                ex.assumed.add('a member is not linked to the poison addresses')

            def remove(ex, st, a, inst):
                ex.prove(st, And(term(a[1]) == n, a[0].reg is r.root), 'removes that node')
                for m in MAPS:
                    ex.setmap(st, m, Base(m + '.r', 8 if m == CO else 64))
                st.ghost['rem'] = {m: ex.getmap(st, m) for m in MAPS}
                return P(reb)

            def erase(ex, st, a, inst):
                ex.prove(st, And(term(a[1]) == reb, reb != 0, a[0].reg is r.root), 'rebalances where removal says')
                st.ghost['er'] = True
                st.ghost['rem'] = {}
                for m in MAPS:
                    ex.setmap(st, m, Base(m + '.e', 8 if m == CO else 64))
                st.ghost['rem'] = {m: ex.getmap(st, m) for m in MAPS}
                return None
            ex.contracts['bfdev_rb_remove_augmented'], ex.contracts['bfdev_rb_erase_augmented'] = remove, erase

            def done(s, res):
                ex.prove(s, z3.BoolVal('rem' in s.ghost), 'the node is removed')
                if not s.ghost.get('er'):
                    ex.prove(s, reb == 0, 'rebalances unless balanced')
                y = fresh('y')
                s.assume(y != n)
                ex.prove(s, term(ex.cells_get(s, r.root, 8)) == (If(r.lm == n, nx, r.lm) if cached else r.lm), 'the cached first node moves to its successor' if cached else 'touches the root only')
                for m in MAPS:
                    ex.prove(s, ex.getmap(s, m).sel(y) == s.ghost['rem'][m].sel(y), 'marks the removed node only')
            ex.run(st, 'v_cached_delete' if cached else 'v_delete_aug' if aug else 'v_delete', [Ptr(r.root), P(n)] + ([Ptr(r.cb)] if aug else []), done)


def t_height(T):
    """the local invariants bound the longest path by twice the shortest (induction step over the subtree)"""
    ex = T.ex(SRC)
    st = State()
    st.frames = []
    names = ('bl', 'br', 'b', 'll', 'lr', 'sl', 'sr')
    bl, br, b, ll, lr, sl, sr = (fresh(n, 'int') for n in names)
    cl, cr, c = fresh('cl', 1), fresh('cr', 1), fresh('c', 1)   # black?
    # children: longest path ll <= 2*bl + (red), shortest sl >= bl; absent child: all zero and black
    red = lambda k: If(k, 0, 1)
    st.assume(bl == br, bl >= 0, b == bl + If(c, 1, 0), Imp(Not(c), And(cl, cr)), ll <= 2 * bl + red(cl), lr <= 2 * br + red(cr), sl >= bl, sr >= br)
    mx, mn = If(ll >= lr, ll, lr), If(sl <= sr, sl, sr)
    ex.prove(st, And(1 + mx <= 2 * b + red(c), 1 + mn >= b), 'height lemma: step')
    ex.prove(st, Imp(c, 1 + mx <= 2 * (1 + mn)), 'height lemma: no path from a black root is more than twice another')


TASKS = [('rotate-left', t_rotate(True)), ('rotate-right', t_rotate(False)), ('fixup', t_fixup), ('erase-left', t_erase(0)), ('erase-right', t_erase(1)), ('erase-left-red', t_erase(2)), ('erase-right-red', t_erase(3)), ('remove-one', t_remove(0)), ('remove-next', t_remove(1)), ('remove-far', t_remove(2)), ('parent', t_parent), ('insert', t_insert(False)), ('insert-debug', t_insert(True)), ('cached-insert', t_insert(True, True)), ('cached-delete', lambda T: t_delete(T, True)), ('find', t_find), ('walk', t_walk), ('replace', t_replace), ('delete', t_delete), ('height', t_height)]
