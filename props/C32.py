"""Index lists: a sorted ring of nodes plus a ring over the first node of every run."""
from .listlib import *
from .lib import *
from .C04 import ins, rem
SRC = '/verif/harness/tu_ilist.c'
DSRC = 'src/ilist.c'
NSRC = 'src/notifier.c'
HARNESS = dict(src='h_C32.c', what='histories of insertions and removals of index list nodes with many equal keys, and of registrations, removals and calls of notifier chains with every handler result and budget', bound='12 nodes, <= 24 operations')
BOUNDED = 'nothing beyond concrete re-checks'
ASSUMPTIONS = ['the comparator has the sign of a difference of ranks (the notifier comparator is proved to be one for chains whose newest equal handler comes first)',
               'nodes are distinct from each other and do not overlap; handlers of a chain do not change the chain they are called from',
               'with the debug option (on by default) the verified text is the one without it, plus the proof that the debug check accepts every well-formed list and changes nothing; the log call is external']
BUDGET = 500
SZ = 16


def P(x):
    return Ptr(None, x)


def IX(x):
    return x + SZ


def rb(f):
    return lambda *a: f(*a)


class V:
    """sequence A of all nodes behind the head, ring B over the first node of each of G runs"""

    def __init__(v, A, B, gs, grp, rk):
        v.A, v.B, v.gs, v.grp, v.rk = A, B, gs, grp, rk

    def facts(v, ex, st, rank):
        A, B, gs, grp, rk = v.A, v.B, v.gs, v.grp, v.rk
        N, G = A.N, B.N
        nx, pv = ex.getmap(st, NX), ex.getmap(st, PV)
        def per_group(j):
            return Imp(inr(j, G), And(gs(j) >= 1, gs(j) < N, B.at(j) == IX(A.at(gs(j))), grp(gs(j)) == j))
        def two(i, j):
            return Imp(And(inr(i, G), inr(j, G), i < j), And(gs(i) < gs(j), rk(i) < rk(j)))
        inn = lambda p: And(p >= 1, p < N)
        def per_pos(p):
            g = grp(p)
            return Imp(inn(p), And(inr(g, G), gs(g) <= p))
        def upper(p):
            g = grp(p)
            return Imp(And(inn(p), g + 1 < G), p < gs(g + 1))
        def ranks(p):
            return Imp(inn(p), rank(A.at(p)) == rk(grp(p)))
        def own(p, node=None):
            y = IX(A.at(p) if node is None else node)
            return Imp(And(inn(p), p != gs(grp(p))), And(nx.sel(y) == y, pv.sel(y) == y))
        v.own = own
        return [Imp(N > 1, And(G >= 1, gs(I(0)) == 1)), Imp(N == 1, G == 0),
                Forall('ib', per_group, widths=['int'], label='the index points at the first node of every run'),
                Forall(['ib', 'ib'], two, widths=['int', 'int'], label='runs in strictly increasing order'),
                Forall('ia', per_pos, widths=['int'], label='every node belongs to a run'), Forall('ia', upper, widths=['int'], label='before the next run'),
                Forall('ia', ranks, widths=['int'], label='runs have one rank'), Forall('ia', own, widths=['int'], label='only the first node of a run is indexed')]


def setup(T, empty, src=None):
    ex = T.ex(src or SRC)
    st = State()
    ex.raw_struct = 'bfdev_list_head'
    A = fresh_seq('A', I(1) if empty else None)
    assume_list(ex, st, A, 'ia')
    G = I(0) if empty else fresh('G', 'int')
    B = fresh_seq('B', G)
    if not empty:
        assume_list(ex, st, B, 'ib')
        st.assume(A.N >= 2)
    gs, grp, rk = z3.Function('gs', INT, INT), z3.Function('grp', INT, INT), z3.Function('rk', INT, INT)
    rank = z3.Function('rank', B64, INT)
    v = V(A, B, rb(gs), rb(grp), rb(rk))
    st.assume(*[f for f in v.facts(ex, st, rank)])
    # objects do not overlap (position -1: not a member)
    out = I(-1)
    st.assume(Forall('ia', lambda p: Imp(inr(p, A.N), And(B.idx(A.at(p)) == out, Imp(p >= 1, And(A.idx(IX(A.at(p))) == out, B.idx(IX(A.at(p))) == If(p == v.gs(v.grp(p)), v.grp(p), out))))), widths=['int']))
    nx, pv = ex.getmap(st, NX), ex.getmap(st, PV)
    h0, h1 = A.at(I(0)), A.at(I(0) if empty else I(1))
    st.assume(nx.sel(h0) == h1, h0 != 0, z3.BoolVal(True) if empty else h0 != h1)
    st.assume(Forall('ia', lambda p: Imp(inr(p, A.N), IX(A.at(p)) != 0), widths=['int']))
    if not empty:
        st.hint('ia', I(1), I(0))
    return ex, st, v, rank


def look(st, v, p=None, j=None):
    """instantiate around a position or a run"""
    for q in ([] if p is None else [p]):
        near(st, 'ia', v.A.N, q)
        g = v.grp(q)
        near(st, 'ib', v.B.N, g)
        near(st, 'ia', v.A.N, v.gs(g))
    for g in ([] if j is None else [j]):
        near(st, 'ib', v.B.N, g)
        near(st, 'ia', v.A.N, v.gs(g))


def new(ex, st, v):
    A, B = v.A, v.B
    x = fresh('newn')
    st.assume(x != 0, IX(x) != 0, x != IX(x))
    st.assume(*[q.idx(y) == I(-1) for q in (A, B) for y in (x, IX(x), x - SZ)])
    near(st, 'ia', A.N, I(0))
    st.assume(Forall('ia', lambda p: Imp(inr(p, A.N), And(A.at(p) != x, A.at(p) != IX(x), Imp(p >= 1, And(IX(A.at(p)) != x, IX(A.at(p)) != IX(x))))), widths=['int']))
    return x


def lean(st):
    """without the order of the runs"""
    q = st.copy()
    q.foralls = [f for f in q.foralls if len(f.doms) < 2]
    return q


def links(ex, st, q, label, seed):
    i = fresh('i', 'int')
    s = lean(st)
    seed(s, i)
    s.assume(inr(i, q.N))
    nx, pv = ex.getmap(s, NX), ex.getmap(s, PV)
    a, b = q.at(i), q.at(wrap(i, q.N))
    ex.prove(s, nx.sel(a) == b, label + ': forward links follow the sequence')
    ex.prove(s, pv.sel(b) == a, label + ': backward links mirror it')
    ex.prove(s, And(q.idx(a) == i, a != 0), label + ': nodes distinct')


def prove_all(ex, s, v2, rank, label, old, hint, image, extra=(), cuts=lambda q: [], short=False):
    """the new view is a sorted, indexed list; old positions near a new one are given by hint"""
    links(ex, s, v2.A, label + ', nodes', lambda q, i: hint(q, p=i))
    links(ex, s, v2.B, label + ', index', lambda q, i: hint(q, j=i))
    for f in v2.facts(ex, s, rank):
        if isinstance(f, Forall):
            if len(f.doms) == 2:
                f.seeds = lambda q, a, b: (hint(q, j=a), hint(q, j=b))
            elif f.doms[0] == ('ib',) or f.doms[0] == 'ib' or list(f.doms[0]) == ['ib']:
                f.seeds = lambda q, a: hint(q, j=a)
            else:
                f.seeds = lambda q, a: hint(q, p=a)
        s4 = s.copy()
        hint(s4, j=I(0))
        if getattr(f, 'label', '').startswith('only the first'):
            # every new position holds an old node or the new one
            q = fresh('q', 'int')
            p, keep = image(q)
            s4.assume(q >= 1, q < old.A.N, keep)
            look(s4, old, p=q)
            hint(s4, p=p)
            inner = And(q != old.gs(old.grp(q)))
            s4.assume(p != v2.gs(v2.grp(p)))
            ex.prove(s4, inner, label + '.nodes inside a run were inside one before')
            s4.assume(inner)
            for g in cuts(q):
                ex.prove(s4, g, label + '.not the node now indexed')
                s4.assume(g)
            if short:
                s5 = lean(s)
                s5.assume(inner, q >= 1, q < old.A.N, *cuts(q))
                s4 = s5
            nx, pv = ex.getmap(s4, NX), ex.getmap(s4, PV)
            y = IX(old.A.at(q))
            n0, p0 = (ex.init_maps[m].sel(y) for m in (NX, PV))
            s4.assume(n0 == y, p0 == y, old.B.idx(y) == I(-1), old.A.idx(y) == I(-1))   # instance of the initial facts
            ex.prove(s4, nx.sel(y) == y, label + '.' + f.label)
            ex.prove(s4, pv.sel(y) == y, label + '.' + f.label + ' (back)')
            for p, x in extra:
                ex.prove(s, v2.own(p, x), label + '.' + f.label)
            continue
        ex.prove(s4, f, label)


def frame2(ex, s, v, extra):
    """links of memory outside the list stay"""
    A, B = v.A, v.B
    y = fresh('y')
    q = lean(s)
    q.assume(*[z.idx(w) == I(-1) for z in (A, B) for w in (y, y - SZ)])
    q.assume(*[y != x for x in extra])
    for mp in (NX, PV):
        ex.prove(q, ex.getmap(q, mp).sel(y) == ex.init_maps[mp].sel(y), 'others untouched')


def t_add(empty):
    def t(T):
        ex, st, v, rank = setup(T, empty)
        A, B, gs, grp, rk = v.A, v.B, v.gs, v.grp, v.rk
        x = new(ex, st, v)
        nx, pv = ex.getmap(st, NX), ex.getmap(st, PV)
        st.assume(nx.sel(x) == x, pv.sel(x) == x, nx.sel(IX(x)) == IX(x), pv.sel(IX(x)) == IX(x))
        pd = fresh('pdata')
        rn = rank(x)

        def cmp(ex, st, a, inst):
            a0, a1 = term(a[0]), term(a[1])
            r = fresh('cmp')
            ex.prove(st, term(a[2]) == pd, 'private data handed on')
            ex.prove(st, Or(a0 == x, a1 == x), 'compares the new node')
            st.assume((r < 0) == (rank(a0) < rank(a1)), (r > 0) == (rank(a0) > rank(a1)))
            return r
        ex.contracts['ucmp'] = cmp
        st.ghost['j'] = I(0)
        if not empty:
            def inv(ex, st, L):
                j = st.ghost['j']
                look(st, v, j=j)
                look(st, v, j=S(j - 1))
                pr = term(L['prev'])
                st.ghost['prevn'] = A.at(gs(j - 1))
                return [And(j >= 0, j < B.N), IX(term(L['walk'])) == B.at(j), IX(term(L['first'])) == B.at(I(0)), term(L['next']) == A.at(I(0)),
                        pr == If(j == 0, bv(0), A.at(gs(j - 1))),
                        Forall('ib', lambda g: Imp(And(g >= 0, g < j), rk(g) <= rn), widths=['int'], label='runs passed are not above')]

            def back(ex, st, L):
                st.ghost['j'] = st.ghost['j'] + 1
                st.ghost['prevn'] = A.at(gs(st.ghost['j'] - 1))
            ex.loops[('bfdev_ilist_add', 0)] = LoopSpec(inv=inv, ghosts=['j'], on_back=back, decreases=lambda ex, st, L: B.N - st.ghost['j'])

        def done(s, r):
            j0 = s.ghost['j']
            if empty:
                jj, p, same = I(0), I(1), z3.BoolVal(False)
            else:
                look(s, v, j=j0)
                jj = If(rn < rk(j0), j0, j0 + 1)
                look(s, v, j=S(jj))
                p = If(jj == B.N, A.N, gs(jj))
                same = And(jj > 0, rk(jj - 1) == rn)
            A2 = ins(A, p, x)
            y = IX(x)
            B2 = Seq(lambda i: If(same, B.at(i), If(i < jj, B.at(i), If(i == jj, y, B.at(i - 1)))),
                     lambda z: If(same, B.idx(z), If(z == y, jj, If(B.idx(z) < jj, B.idx(z), B.idx(z) + 1))), None, If(same, B.N, B.N + 1))
            v2 = V(A2, B2, lambda g: If(same, If(g < jj, gs(g), gs(g) + 1), If(g < jj, gs(g), If(g == jj, p, gs(g - 1) + 1))),
                   lambda q: If(q == p, If(same, jj - 1, jj), If(q < p, grp(q), If(same, grp(q - 1), grp(q - 1) + 1))),
                   lambda g: If(same, rk(g), If(g < jj, rk(g), If(g == jj, rn, rk(g - 1)))))

            def hint(q, p=None, j=None):
                if p is not None:
                    look(q, v, p=p)
                    look(q, v, p=S(p - 1))
                if j is not None:
                    look(q, v, j=j)
                    look(q, v, j=S(j - 1))
                    look(q, v, j=S(jj))
                    near(q, 'ia', A.N, S(v2.gs(j)))
            near(s, 'ia', A.N, S(p))
            near(s, 'ia', A.N, S(p - 1))
            look(s, v, p=S(p - 1))
            look(s, v, p=S(p))
            prove_all(ex, s, v2, rank, 'inserted behind its equals', v, hint, lambda q: (If(q < p, q, q + 1), z3.BoolVal(True)), [(p, x)])
            frame2(ex, s, v, [x, y])
        ex.run(st, 'bfdev_ilist_add', [P(A.at(I(0))), P(x), Fn('ucmp'), P(pd)], done)
    return t


def t_used(T):
    """a node that is not initialised (still linked) is left alone"""
    ex, st, v, rank = setup(T, False)
    x = fresh('x')
    nx = ex.getmap(st, NX)
    st.assume(x != 0, IX(x) != 0, Or(nx.sel(x) != x, nx.sel(IX(x)) != IX(x)))
    y = fresh('y')
    def done(s, r):
        for mp in (NX, PV):
            ex.prove(s, ex.getmap(s, mp).sel(y) == ex.init_maps[mp].sel(y), 'nothing changes')
    ex.contracts['ucmp'] = lambda ex, st, a, i: ex.prove(st, z3.BoolVal(False), 'no comparison')
    ex.loops[('bfdev_ilist_add', 0)] = LoopSpec(inv=lambda ex, st, L: [z3.BoolVal(False)])
    ex.run(st, 'bfdev_ilist_add', [P(v.A.at(I(0))), P(x), Fn('ucmp'), NULL], done)


def t_del(T):
    ex, st, v, rank = setup(T, False)
    A, B, gs, grp, rk = v.A, v.B, v.gs, v.grp, v.rk
    p = fresh('p', 'int')
    ex.inputs['p'] = p
    st.assume(p >= 1, p < A.N)
    x = A.at(p)
    g = grp(p)
    for q in (p, S(p + 1), S(p - 1)):
        look(st, v, p=q)
    look(st, v, j=S(g + 1))
    look(st, v, j=S(g - 1))
    first = p == gs(g)
    more = And(p + 1 < A.N, grp(p + 1) == g)
    gone = And(first, Not(more))
    prom = And(first, more)

    cut = And(Imp(p + 1 < A.N, Or(grp(p + 1) == g, And(grp(p + 1) == g + 1, gs(g + 1) == p + 1))), Imp(p + 1 == A.N, g + 1 == B.N), inr(g, B.N), Imp(g == 0, gs(g) == 1),
              Imp(B.N == 1, g == 0), Imp(first, B.at(g) == IX(x)), Imp(Not(first), And(*[ex.getmap(st, m).sel(IX(x)) == IX(x) for m in (NX, PV)])))
    ex.prove(st, cut, 'the node behind belongs to this run or starts the next')
    st.assume(cut)

    def done(s, r):
        A2 = rem(A, p)
        nxt = IX(A.at(p + 1))
        rB = rem(B, g)
        B2 = Seq(lambda i: If(gone, rB.at(i), If(And(prom, i == g), nxt, B.at(i))),
                 lambda z: If(gone, rB.idx(z), If(And(prom, z == nxt), g, B.idx(z))), None, If(gone, B.N - 1, B.N))
        v2 = V(A2, B2, lambda i: If(gone, If(i < g, gs(i), gs(i + 1) - 1), If(i <= g, gs(i), gs(i) - 1)),
               lambda q: If(q < p, grp(q), If(gone, grp(q + 1) - 1, grp(q + 1))),
               lambda i: If(gone, If(i < g, rk(i), rk(i + 1)), rk(i)))

        def hint(q, p=None, j=None):
            if p is not None:
                look(q, v, p=p)
                look(q, v, p=S(p + 1))
            if j is not None:
                look(q, v, j=j)
                look(q, v, j=S(j + 1))
                near(q, 'ia', A.N, S(v2.gs(j)))
                near(q, 'ia', A.N, S(v2.gs(j) + 1))
        prove_all(ex, s, v2, rank, 'removed, its run still indexed', v, hint, lambda q: (If(q < p, q, q - 1), q != p), cuts=lambda q: [Not(And(prom, q == p + 1)), Imp(prom, IX(A.at(q)) != nxt), IX(A.at(q)) != IX(x)], short=True)
        nx, pv = ex.getmap(s, NX), ex.getmap(s, PV)
        ex.prove(lean(s), And(*[m.sel(y) == y for m in (nx, pv) for y in (x, IX(x))]), 'the removed node is initialised')
        frame2(ex, s, v, [])
    ex.run(st, 'bfdev_ilist_del', [P(A.at(I(0))), P(x)], done)


def t_debug(which):
    """the check of the debug option passes every well-formed list"""
    def t(T):
        ex, st, v, rank = setup(T, False, DSRC)
        if not any('ilist_head_check' in m.funcs for m in ex.mods):
            return
        ex.contracts['bfdev_log_core'] = lambda ex, st, a, i: bv(0, 32)
        Q, dom = (v.A, 'ia') if which != 'B' else (v.B, 'ib')
        near(st, 'ia', v.A.N, I(1))
        near(st, 'ib', v.B.N, I(0))
        y = fresh('y')

        def done(s, r):
            ex.prove(s, term(r) != 0 if not z3.is_bool(term(r)) else term(r), 'well-formed lists pass')
            for mp in (NX, PV):
                ex.prove(s, ex.getmap(s, mp).sel(y) == ex.init_maps[mp].sel(y), 'nothing changes')
        if which == 'head':
            def sub(ex, st, a, inst):
                ex.prove(st, Or(term(a[0]) == v.A.at(I(0)), term(a[0]) == v.B.at(I(0))), 'checks the two lists')
                return z3.BoolVal(True)
            ex.contracts['ilist_list_check'] = sub
            ex.run(st, 'ilist_head_check', [P(v.A.at(I(0)))], done)
            return

        if which == 'link':
            a, b = fresh('a'), fresh('b')
            st.assume(a != 0, b != 0, ex.getmap(st, NX).sel(a) == b, ex.getmap(st, PV).sel(b) == a)
            ex.run(st, 'ilist_integrity_check', [P(v.A.at(I(0))), P(a), P(b)], done)
            return

        def link(ex, st, a, inst):
            nx, pv = ex.getmap(st, NX), ex.getmap(st, PV)
            ex.prove(st, And(nx.sel(term(a[1])) == term(a[2]), pv.sel(term(a[2])) == term(a[1])), 'checks two neighbours')
            return z3.BoolVal(True)
        ex.contracts['ilist_integrity_check'] = link

        def inv(ex, st, L):
            k = st.ghost['k']
            near(st, dom, Q.N, k)
            near(st, dom, Q.N, S(k + 1))
            return [And(k >= 0, k < Q.N), term(L['prev']) == Q.at(k), term(L['next']) == Q.at(wrap(k, Q.N)), L.t('success') == 1]

        def back(ex, st, L):
            st.ghost['k'] = st.ghost['k'] + 1
        st.ghost['k'] = I(0)
        ex.loops[('ilist_list_check', 0)] = LoopSpec(inv=inv, ghosts=['k'], on_back=back, decreases=lambda ex, st, L: Q.N - st.ghost['k'])
        ex.run(st, 'ilist_list_check', [P(Q.at(I(0)))], done)
    return t


# ---------------------------------------------------------------- notifier chains
PRIO, ENT, PD = 'bfdev_notifier_node.32', 'bfdev_notifier_node.40', 'bfdev_notifier_node.48'


def t_ncmp(T):
    ex = T.ex(NSRC)
    st = State()
    a, b = fresh('a'), fresh('b')
    st.assume(a != 0, b != 0)
    out = []

    def done(s, r):
        pa, pb = ex.getmap(s, PRIO, 32).sel(a), ex.getmap(s, PRIO, 32).sel(b)
        r = term(r)
        ex.prove(s, And(r != 0, (r > 0) == (pa > pb)), 'above exactly for the larger priority')
    ex.run(st, 'notifier_chain_cmp', [P(a), P(b), NULL], done)
    # such a comparator has the sign of a difference of ranks: order by priority, then newest first
    st = State()
    st.frames = []
    pn, pw, tn, tw, k = (z3.Int(x) for x in ('pn', 'pw', 'tn', 'tw', 'k'))
    st.assume(tn > tw, tn < k, tw >= 0, k > 0)
    rn, rw = pn * k - tn, pw * k - tw
    ex.prove(st, (pn > pw) == (rn > rw), 'lemma: ranks by priority and age')


def t_register(T):
    ex = T.ex(NSRC)
    st = State()
    x, hd, y = fresh('x'), fresh('head'), fresh('y')
    st.assume(x != 0, hd != 0, IX(x) != 0)
    n = []
    ent = fresh('entry')
    ex.setmap(st, ENT, Store(ex.getmap(st, ENT), (x,), ent))

    def copy(ex, st, d, s, c):
        if c != 32:
            raise Exception('size')
        vs = [ex.load(st, ex.ptr_add(s, bv(o)), ('ptr',)) for o in (0, 8, 16, 24)]
        for o, w in zip((0, 8, 16, 24), vs):
            b = term(d) + bv(o & ~15)
            ex.store(st, Ptr(None, b + bv(o & 8), tag=('bfdev_list_head', o & 8), base=b), w, ('ptr',))
        return d
    ex.struct_copy_hook = copy

    def add(ex, st, a, inst):
        nx, pv = ex.getmap(st, NX), ex.getmap(st, PV)
        ex.prove(st, And(term(a[0]) == hd, term(a[1]) == x, z3.BoolVal(isinstance(a[2], Fn) and a[2].name == 'notifier_chain_cmp')), 'handed to the index list in priority order')
        ex.prove(st, And(*[m.sel(z) == z for m in (nx, pv) for z in (x, IX(x))]), 'as an initialised node')
        ex.prove(st, ent != 0, 'with an entry')
        n.append(1)
        st.ghost['added'] = True
        return None
    ex.contracts['bfdev_ilist_add'] = add

    def done(s, r):
        if s.ghost.get('added'):
            ex.prove(s, term(r) == 0, 'registered')
        else:
            ex.prove(s, And(ent == 0, term(r) == bv(-22, 32)), 'refused without an entry only')
            ex.prove(s, And(*[ex.getmap(s, m).sel(y) == ex.init_maps[m].sel(y) for m in (NX, PV)]) if NX in ex.init_maps else z3.BoolVal(True), 'nothing changes')
    ex.init_maps.setdefault(NX, ex.getmap(st, NX))
    ex.init_maps.setdefault(PV, ex.getmap(st, PV))
    ex.run(st, 'bfdev_notifier_register', [P(hd), P(x)], done)


def t_unregister(T):
    ex = T.ex(NSRC)
    st = State()
    x, hd = fresh('x'), fresh('head')
    n = []

    def dele(ex, st, a, inst):
        ex.prove(st, And(term(a[0]) == hd, term(a[1]) == x), 'this handler leaves this chain')
        n.append(1)
        return None
    ex.contracts['bfdev_ilist_del'] = dele
    ex.run(st, 'bfdev_notifier_unregister', [P(hd), P(x)], lambda s, r: ex.prove(s, z3.BoolVal(len(n) == 1), 'once'))


def t_call(count):
    def t(T):
        ex = T.ex(NSRC)
        st = State()
        ex.raw_struct = 'bfdev_list_head'
        A = fresh_seq('A')
        assume_list(ex, st, A, 'ia')
        arg, budget = fresh('arg'), fresh('call_num', 32)
        c0 = fresh('called', 32)
        C = ex.region(st, 'cells', 'called', 4, content={0: (4, c0)}) if count else None
        ex.inputs['call_num'] = budget
        near(st, 'ia', A.N, I(0))
        near(st, 'ia', A.N, I(1))
        st.ghost.update(k=I(0), last=bv(0, 32), pend=z3.BoolVal(False))
        ex.getmap(st, ENT), ex.getmap(st, PD)
        ent, pdm = ex.getmap(st, ENT), ex.getmap(st, PD)

        def hook(st, fp):
            st.ghost['fp'] = term(fp)
            return Fn('usercall')
        ex.resolve_fn_hook = hook

        def user(ex, st, a, inst):
            k = st.ghost['k']
            near(st, 'ia', A.N, S(k + 1))
            x = A.at(k + 1)
            ex.prove(st, And(k + 1 < A.N, st.ghost['kb'] != budget if 'kb' in st.ghost else z3.BoolVal(True)), 'a registered handler, within the budget')
            ex.prove(st, And(st.ghost['fp'] == ent.sel(x), term(a[0]) == arg, term(a[1]) == pdm.sel(x)), 'the next handler in order, with its data')
            ex.prove(st, And(Not(st.ghost['pend']), st.ghost['last'] & 2 == 0), 'not after a stop; handlers that asked for it are removed first')
            r = fresh('ret', 32)
            st.ghost.update(k=k + 1, kb=st.ghost['kb'] + 1, last=r, pend=(r & 1) != 0)
            return r
        ex.contracts['usercall'] = user
        st.ghost['kb'] = bv(0, 32)

        def dele(ex, st, a, inst):
            k = st.ghost['k']
            ex.prove(st, And(st.ghost['pend'], term(a[0]) == A.at(I(0)), term(a[1]) == A.at(k)), 'removes the handler that asked for it')
            st.ghost['pend'] = z3.BoolVal(False)
            for m in (NX, PV):
                old, nw = ex.getmap(st, m), Base('after', 64)
                ex.setmap(st, m, nw)
                if m == NX:
                    st.assume(Forall('ia', lambda q, old=old, nw=nw: Imp(And(q > k, q < A.N), nw.sel(A.at(q)) == old.sel(A.at(q))), widths=['int']))
            return None
        ex.contracts['bfdev_ilist_del'] = dele

        def inv(ex, st, L):
            k, kb = st.ghost['k'], st.ghost['kb']
            near(st, 'ia', A.N, S(k + 1))
            near(st, 'ia', A.N, S(k + 2))
            nx = ex.getmap(st, NX)
            rv = L.t('retval')
            P_ = [And(k >= 0, k + 1 <= A.N, k < A.N), term(L['node']) == A.at(wrap(k, A.N)), Imp(k + 1 < A.N, term(L['tmp']) == A.at(wrap(k + 1, A.N))),
                  L.t('call_num') == budget - kb, ULE(kb, budget), Not(st.ghost['pend']), st.ghost['last'] & 2 == 0, rv == st.ghost['last'] & bv(~1 & 0xffffffff, 32),
                  Forall('ia', lambda q: Imp(And(q > k, q < A.N), nx.sel(A.at(q)) == A.at(wrap(q, A.N))), widths=['int'], label='rest of the chain')]
            if count:
                P_.append(ex.cells_get(st, C, 0) == c0 + kb)
            return P_
        ex.loops[('bfdev_notifier_call', 0)] = LoopSpec(inv=inv, ghosts=['k', 'kb', 'last', 'pend'], decreases=lambda ex, st, L: A.N - st.ghost['k'])

        def done(s, r):
            k, kb, last = s.ghost['k'], s.ghost['kb'], s.ghost['last']
            ex.prove(s, Or(k + 1 == A.N, kb == budget, last & 2 != 0), 'ends at the end of the chain, the budget or a stop')
            ex.prove(s, And(Not(s.ghost['pend']), term(r) == last & bv(~1 & 0xffffffff, 32)), 'result of the last handler')
            if count:
                ex.prove(s, term(ex.cells_get(s, C, 0)) == c0 + kb, 'counts the calls')
        ex.run(st, 'bfdev_notifier_call', [P(A.at(I(0))), P(arg), budget, Ptr(C) if count else NULL], done)
    return t


TASKS = [('add to an empty list', t_add(True)), ('add', t_add(False)), ('add used node', t_used), ('del', t_del), ('debug check', t_debug('head')), ('debug check, nodes', t_debug('A')), ('debug check, index', t_debug('B')), ('debug check, neighbours', t_debug('link')), ('notifier_chain_cmp', t_ncmp), ('register', t_register),
         ('unregister', t_unregister), ('call', t_call(False)), ('call counting', t_call(True))]
