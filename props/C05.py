"""Hash lists, singly linked lists, lock-free lists and hash tables."""
from .listlib import *
from .C04 import poisons, ins, rem, P, pos, new_node

TU = '/verif/harness/tu_hlist.c'
HNX, HPP, SNX = 'bfdev_hlist_node.0', 'bfdev_hlist_node.8', 'bfdev_slist_head.0'


def nxt(q, i):
    return If(i + 1 < q.N, q.at(i + 1), bv(0))


def assume_nt(ex, st, q, dom, nx, pp=None):
    st.assume(q.N >= 1)
    n0 = ex.getmap(st, nx)
    p0 = ex.getmap(st, pp) if pp else None

    def fact(i):
        a, b = q.at(i), q.at(i + 1)
        f = [n0.sel(a) == nxt(q, i), q.idx(a) == i, a != 0, Imp(i + 1 < q.N, And(b != 0, q.idx(b) == i + 1))]
        if pp:
            f.append(Imp(i + 1 < q.N, p0.sel(b) == a))
        return Imp(inr(i, q.N), And(*f))
    st.assume(Forall(dom, fact, widths=['int']))
    st.hint(dom, I(0), S(q.N - 1))


def near_nt(st, dom, *ps):
    for p in ps:
        st.hint(dom, S(p), S(p - 1), S(p + 1))


def prove_nt(ex, st, q, label, dom, nx, pp, hints):
    i = fresh('i', 'int')
    s = st.copy()
    for t in hints(i):
        near_nt(s, dom, t)
    s.assume(inr(i, q.N))
    n, p = ex.getmap(s, nx), ex.getmap(s, pp) if pp else None
    a = q.at(i)
    ex.prove(s, n.sel(a) == nxt(q, i), label + ': links follow the sequence')
    if pp:
        ex.prove(s, Imp(i >= 1, p.sel(a) == q.at(i - 1)), label + ': back pointers mirror it')
    ex.prove(s, And(q.idx(a) == i, a != 0), label + ': nodes distinct')


def frame(ex, st, A, extra, maps, dom='ia'):
    y = fresh('y')
    s = st.copy()
    s.assume(Forall(dom, lambda i: Imp(inr(i, A.N), A.at(i) != y), widths=['int']))
    for x in extra:
        s.assume(y != x)
    for mp in maps:
        ex.prove(s, ex.getmap(s, mp).sel(y) == ex.init_maps[mp].sel(y), 'other nodes untouched')


def base(T, dbg, nx=HNX, pp=HPP):
    ex = T.ex(TU, 'src/hlist-debug.c', 'src/slist-debug.c') if dbg else T.ex(T.mod(TU, ('V_NODEBUG',)))
    st = State()
    ex.contracts['bfdev_log_core'] = lambda ex, st, a, i: bv(0, 32)
    if dbg:
        ex.assumed.add('the log call of the debug checks has no effect on list nodes')
        ex.assumed.add('list nodes do not live at the poison addresses')
    # head->node and node->next are both the link cell at the start of the object
    ex.tag_alias[('bfdev_hlist_head', 0)] = ('bfdev_hlist_node', 0)
    ex.resolve_untagged = lambda st, p, size: Ptr(None, p.off, tag=('bfdev_hlist_node', 0), base=p.off)
    ex.raw_struct = 'bfdev_hlist_head'
    if nx == SNX:
        ex.raw_struct = 'bfdev_slist_head'
    A = fresh_seq('A')
    assume_nt(ex, st, A, 'ia', nx, pp)
    if dbg:
        ps = poisons(ex, ('v_poison1', 'v_poison2') if nx == HNX else ('v_poison3',))
        st.assume(Forall('ia', lambda i: Imp(inr(i, A.N), And(*[A.at(i) != v for v in ps])), widths=['int']))
    return ex, st, A


def hpos(ex, st, q, name, lo=0):
    p = fresh(name, 'int')
    st.assume(p < q.N, p >= lo)
    near_nt(st, 'ia', p)
    ex.inputs[name] = p
    ex.inputs['N'] = q.N
    return p


def t_hadd(kind):
    def t(T):
        for dbg in (False, True):
            ex, st, A = base(T, dbg)
            p = hpos(ex, st, A, 'p', 0 if kind == 'head' else 1)
            if kind == 'head':
                st.assume(p == 0)
            x = new_node(ex, st, A)
            R = ins(A, p if kind == 'prev' else p + 1, x)

            def done(s, r):
                prove_nt(ex, s, R, 'inserted', 'ia', HNX, HPP, lambda i: (i, i - 1))
                frame(ex, s, A, [x], (HNX, HPP))
            ex.run(st, 'v_%s_add' % kind, [P(A.at(p)), P(x)], done)
    return t


def t_hdel(fn):
    def t(T):
        for dbg in (False, True):
            ex, st, A = base(T, dbg)
            p = hpos(ex, st, A, 'p', 1)
            R = rem(A, p)
            n = A.at(p)

            def done(s, r):
                prove_nt(ex, s, R, 'removed', 'ia', HNX, HPP, lambda i: (i, i + 1))
                frame(ex, s, A, [], (HNX, HPP))
                if fn in ('v_del_init', 't_del'):
                    ex.prove(s, And(ex.getmap(s, HNX).sel(n) == 0, ex.getmap(s, HPP).sel(n) == 0), 'removed node is unhashed')
            ex.run(st, fn, [P(n)], done)
    return t


def t_hreplace(T):
    ex, st, A = base(T, False)
    p = hpos(ex, st, A, 'p', 1)
    x = new_node(ex, st, A)
    R = Seq(lambda i: If(i == p, x, A.at(i)), lambda y: If(y == x, p, A.idx(y)), None, A.N)

    def done(s, r):
        prove_nt(ex, s, R, 'replaced', 'ia', HNX, HPP, lambda i: (i,))
        frame(ex, s, A, [x], (HNX, HPP))
    ex.run(st, 'v_replace', [P(A.at(p)), P(x)], done)
    # moving a whole list to another head
    ex, st, A = base(T, False)
    x = new_node(ex, st, A)
    R2 = Seq(lambda i: If(i == 0, x, A.at(i)), lambda y: If(y == x, I(0), A.idx(y)), None, A.N)
    near_nt(st, 'ia', I(1))

    def done2(s, r):
        prove_nt(ex, s, R2, 'rehomed', 'ia', HNX, HPP, lambda i: (i,))
        ex.prove(s, ex.getmap(s, HNX).sel(A.at(I(0))) == 0, 'old head is empty')
        frame(ex, s, A, [x], (HNX, HPP))
    ex.run(st, 'v_head_replace', [P(A.at(I(0))), P(x)], done2)


def t_hchecks(T):
    for pre, nx, pp in (('v_', HNX, HPP), ('s_', SNX, None)):
        for nm, f, hd, nd in (('check_empty', lambda A, p: A.N == 1, 1, 0), ('check_first', lambda A, p: p == 1, 1, 1),
                              ('check_end', lambda A, p: p == A.N - 1, 0, 1), ('check_another', lambda A, p: And(A.N == 2, p == 1), 1, 1),
                              ('check_unhashed', lambda A, p: z3.BoolVal(False), 0, 1)):
            if nm == 'check_unhashed' and pre == 's_':
                continue
            ex, st, A = base(T, False, nx, pp)
            p = hpos(ex, st, A, 'p', nd)

            def done(s, r):
                near_nt(s, 'ia', I(1), I(2))
                ex.prove(s, (r if z3.is_bool(r) else term(r) != 0) == f(A, p), nm)
                for mp in ([nx] + ([pp] if pp else [])):
                    y = fresh('y')
                    ex.prove(s, ex.getmap(s, mp).sel(y) == ex.init_maps[mp].sel(y), 'query changes nothing')
            ex.run(st, pre + nm, ([P(A.at(I(0)))] if hd else []) + ([P(A.at(p))] if nd else []), done)
    for fn, nx in (('v_head_init', HNX), ('s_init', SNX)):
        ex, st, A = base(T, False, nx, HPP if nx == HNX else None)
        x = new_node(ex, st, A)

        def done(s, r):
            ex.prove(s, ex.getmap(s, nx).sel(x) == 0, 'initialised head is empty')
            frame(ex, s, A, [x], (nx,))
        ex.run(st, fn, [P(x)], done)


# ---------------------------------------------------------------- singly linked
def t_sadd(T):
    for dbg in (False, True):
        ex, st, A = base(T, dbg, SNX, None)
        p = hpos(ex, st, A, 'p')
        x = new_node(ex, st, A)
        R = ins(A, p + 1, x)

        def done(s, r):
            prove_nt(ex, s, R, 'inserted', 'ia', SNX, None, lambda i: (i, i - 1))
            frame(ex, s, A, [x], (SNX,))
        ex.run(st, 's_add', [P(A.at(p)), P(x)], done)


def walk_spec(A, p):
    def inv(ex, st, L):
        k = st.ghost['k']
        near_nt(st, 'ia', k)
        return [('position', And(k >= 0, k < p, term(L['walk']) == A.at(k)))]

    def back(ex, st, L):
        st.ghost['k'] = st.ghost['k'] + 1
        near_nt(st, 'ia', st.ghost['k'])
    return LoopSpec(inv=inv, ghosts=['k'], on_back=back, decreases=lambda ex, st, L: (p - st.ghost['k'],),
                    names=('walk',))


def t_sdel(T):
    for dbg in (False, True):
        ex, st, A = base(T, dbg, SNX, None)
        p = hpos(ex, st, A, 'p', 1)
        st.ghost['k'] = I(0)
        ex.loops[('bfdev_slist_del', 0)] = walk_spec(A, p)
        R = rem(A, p)

        def done(s, r):
            prove_nt(ex, s, R, 'removed', 'ia', SNX, None, lambda i: (i, i + 1))
            frame(ex, s, A, [], (SNX,))
        ex.run(st, 's_del', [P(A.at(I(0))), P(A.at(p))], done)


def t_sreplace(T):
    ex, st, A = base(T, False, SNX, None)
    p = hpos(ex, st, A, 'p', 1)
    x = new_node(ex, st, A)
    st.ghost['k'] = I(0)
    ex.loops[('bfdev_slist_replace', 0)] = walk_spec(A, p)
    R = Seq(lambda i: If(i == p, x, A.at(i)), lambda y: If(y == x, p, A.idx(y)), None, A.N)

    def done(s, r):
        prove_nt(ex, s, R, 'replaced', 'ia', SNX, None, lambda i: (i,))
        frame(ex, s, A, [x], (SNX,))
    ex.run(st, 's_replace', [P(A.at(I(0))), P(A.at(p)), P(x)], done)


# ---------------------------------------------------------------- lock-free, every interleaving of pushes and pops
def t_llist(T):
    def setup():
        ex = T.ex(TU, 'src/llist.c')
        st = State()
        ex.raw_struct = 'bfdev_slist_head'
        ex.resolve_untagged = lambda st, p, size: Ptr(None, p.off, tag=('bfdev_slist_head', 0), base=p.off)
        ex.assumed.add('other threads change only the head link between the atomic steps of an operation (several producers, one consumer); cmpxchg is a single atomic step')
        h = fresh('head')
        st.assume(h != 0)
        ex.getmap(st, SNX)

        def interfere(ex, st, p):
            v = fresh('others')
            ex.setmap(st, SNX, Store(ex.getmap(st, SNX), (h,), v))
            st.ghost['seen'] = v
        ex.interfere = interfere
        st.ghost['seen'] = ex.getmap(st, SNX).sel(h)
        return ex, st, h
    ex, st, h = setup()
    n, e = fresh('node'), fresh('end')
    st.assume(n != 0, e != 0, e != h, n != h)
    ex.loops[('bfdev_llist_split', 0)] = LoopSpec(inv=lambda ex, st, L: [
        ('others untouched', Forall('y', lambda y: Imp(And(y != h, y != e), ex.getmap(st, SNX).sel(y) == ex.init_maps[SNX].sel(y))))], ghosts=['seen'])

    def done(s, r):
        nx = ex.getmap(s, SNX)
        ex.prove(s, nx.sel(h) == n, 'the pushed chain becomes the front')
        ex.prove(s, nx.sel(e) == s.ghost['seen'], 'followed by everything the list held at the instant of the push')
        ex.prove(s, (r if z3.is_bool(r) else term(r) != 0) == (s.ghost['seen'] == 0), 'reports whether the list was empty at that instant')
        y = fresh('y')
        s.hint('y', y)
        s.assume(y != h, y != e)
        ex.prove(s, nx.sel(y) == ex.init_maps[SNX].sel(y), 'no other node is touched')
    ex.run(st, 'bfdev_llist_split', [P(h), P(n), P(e)], done)
    ex, st, h = setup()

    def inv(ex, st, L):
        y = fresh('y')
        return [('others untouched', Forall('y', lambda y: Imp(y != h, ex.getmap(st, SNX).sel(y) == ex.init_maps[SNX].sel(y)))),
                ('non head', term(L['entry']) != h)]
    nx0 = ex.getmap(st, SNX)
    ex.assumed.add('the head cell is not itself a node of the list')

    def interfere(ex, st, p):
        v = fresh('others')
        st.assume(v != h)
        ex.setmap(st, SNX, Store(ex.getmap(st, SNX), (h,), v))
        st.ghost['seen'] = v
    ex.interfere = interfere
    st.assume(st.ghost['seen'] != h)
    ex.loops[('bfdev_llist_del', 0)] = LoopSpec(inv=inv, ghosts=['seen'])

    def done2(s, r):
        nx = ex.getmap(s, SNX)
        e = term(r)
        s.hint('y', e)
        ex.prove(s, Imp(e != 0, And(e == s.ghost['seen'], nx.sel(h) == nx.sel(e))), 'pops exactly the front')
        y = fresh('y')
        s.hint('y', y)
        s.assume(y != h)
        ex.prove(s, nx.sel(y) == ex.init_maps[SNX].sel(y), 'no other node is touched')
    ex.run(st, 'bfdev_llist_del', [P(h)], done2)


# ---------------------------------------------------------------- hash table
def t_table(T):
    ex = T.ex(TU)
    st = State()
    size, key = fresh('size'), fresh('key')
    st.assume(UGE(size, bv(2)), size & (size - 1) == 0)
    ex.inputs.update(size=size, key=key)
    ex.run(st, 't_index', [size, key], lambda s, r: ex.prove(s, ULT(term(r), size), 'bucket index inside the table'))
    # add inserts at the bucket of the key
    ex = T.ex(TU)
    st = State()
    st.assume(UGE(size, bv(2)), size & (size - 1) == 0, ULT(size, bv(1 << 60)))
    ex.inputs.update(size=size, key=key)
    tab = ex.region(st, 'arr', 'tab', size, 8, Base('tab', 64))
    got, idx = [], []
    ex.contracts['bfdev_hlist_head_add'] = lambda ex, st, a, i: got.append((st.copy(), a)) or None
    ex.run(st, 't_add', [Ptr(tab), P(bv(0x1000)), key] if False else [Ptr(tab), size, P(bv(0x1000)), key], lambda s, r: None)
    ex2 = T.ex(TU)
    ex2.run(st.copy(), 't_index', [size, key], lambda s, r: idx.append((s, term(r))))
    for s, a in got:
        for s2, ix in idx:
            s3 = s.copy()
            s3.assume(*s2.pc)
            ex.prove(s3, And(a[0].idx == ix, term(a[1]) == 0x1000), 'add puts the node into the bucket lookups use') if a[0].reg is tab else ex.prove(s3, False, 'add outside the table')
    # init / empty
    for fn in ('t_init', 't_empty'):
        ex = T.ex(TU)
        st = State()
        n = fresh('n')
        st.assume(ULT(n, bv(1 << 60)))
        c0 = Base('tab', 64)
        tab = ex.region(st, 'arr', 'tab', n, 8, c0)
        nm = 'bfdev_hashtbl_init' if fn == 't_init' else 'bfdev_hashtbl_empty'

        def inv(ex, st, L):
            c = st.mem[tab.id]
            k = L.t('count')
            if fn == 't_init':
                return [('range', ULE(k, n)), ('cleared', Forall(tab.dom, lambda i: Imp(ULT(i, k), c.sel(i) == 0)))]
            return [('range', ULE(k, n)), ('seen empty', Forall(tab.dom, lambda i: Imp(ULT(i, k), c.sel(i) == 0)))]
        ex.loops[(nm, 0)] = LoopSpec(inv=inv, decreases=lambda ex, st, L: (n - L.t('count'),))

        def done(s, r):
            c = s.mem[tab.id]
            if fn == 't_init':
                ex.prove(s, Forall(tab.dom, lambda i: Imp(ULT(i, n), c.sel(i) == 0)), 'every bucket is empty')
            else:
                rr = r if z3.is_bool(r) else term(r) != 0
                ex.prove(s, Forall(tab.dom, lambda i: Imp(And(rr, ULT(i, n)), c.sel(i) == 0)), 'reported empty means every bucket empty')
                k = s.ghost.get('count')
                # not empty: the bucket last looked at is a witness
                ts = [t for t in s.terms.get(tab.dom, {}).values()]
                ex.prove(s, Or(rr, *[And(ULT(t, n), c.sel(t) != 0) for t in ts]), 'reported not empty means some bucket holds a node')
        ex.run(st, fn, [Ptr(tab), n], done)


TASKS = [('hlist %s_add' % k, t_hadd(k)) for k in ('head', 'next', 'prev')]
TASKS += [('hlist ' + f, t_hdel(f)) for f in ('v_deluf', 'v_del', 'v_del_init', 't_del')]
TASKS += [('hlist replace', t_hreplace), ('checks', t_hchecks), ('slist add', t_sadd), ('slist del', t_sdel), ('slist replace', t_sreplace), ('llist', t_llist), ('hashtbl', t_table)]
HARNESS = {'src': 'h_C05.c', 'what': 'random operations on hash lists, singly linked lists, llists and hash tables against array models', 'bound': '<= 40 nodes, tables up to 16 buckets'}
BOUNDED = 'iteration macros; lookup through the iteration macros of the hash table'
