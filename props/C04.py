"""Doubly linked list operations transform the sequence exactly as described; sort."""
from .listlib import *

TU = '/verif/harness/tu_list.c'


def poisons(ex, names=('v_poison1', 'v_poison2')):
    out = []
    for n in names:
        ex.run(State(), n, [], lambda s, r: out.append(term(r)))
    return out


def base(T, dbg, two=False):
    ex = T.ex(TU, 'src/list-debug.c') if dbg else T.ex(T.mod(TU, ('V_NODEBUG',)))
    st = State()
    ex.raw_struct = 'bfdev_list_head'
    ex.contracts['bfdev_log_core'] = lambda ex, st, a, i: bv(0, 32)
    if dbg:
        ex.assumed.add('the log call of the debug checks has no effect on list nodes')
    A = fresh_seq('A')
    assume_list(ex, st, A, 'ia')
    B = None
    if two:
        B = fresh_seq('B')
        assume_list(ex, st, B, 'ib')
        st.assume(Forall(['ia', 'ib'], lambda i, j: Imp(And(inr(i, A.N), inr(j, B.N)), A.at(i) != B.at(j)), widths=['int', 'int']))
    if dbg:
        ps = poisons(ex)
        ex.assumed.add('list nodes do not live at the poison addresses')
        st.assume(Forall('ia', lambda i: Imp(inr(i, A.N), And(*[A.at(i) != v for v in ps])), widths=['int']))
    return ex, st, A, B


def pos(ex, st, q, dom, name, lo=0):
    p = fresh(name, 'int')
    st.assume(p < q.N, p >= lo)
    near(st, dom, q.N, p)
    ex.inputs[name] = p
    ex.inputs[dom + '.N'] = q.N
    return p


def new_node(ex, st, A, dom='ia'):
    x = fresh('newn')
    st.assume(x != 0)
    st.assume(Forall(dom, lambda i: Imp(inr(i, A.N), A.at(i) != x), widths=['int']))
    return x


def ins(A, q, x):
    """A with x inserted at position q (1..N)"""
    return Seq(lambda i: If(i < q, A.at(i), If(i == q, x, A.at(i - 1))),
               lambda y: If(y == x, q, If(A.idx(y) < q, A.idx(y), A.idx(y) + 1)), None, A.N + 1)


def rem(A, p):
    return Seq(lambda i: If(i < p, A.at(i), A.at(i + 1)),
               lambda y: If(A.idx(y) < p, A.idx(y), A.idx(y) - 1), None, A.N - 1)


def frame(ex, st, A, extra, dom='ia', B=None):
    """nodes of no involved list keep their links"""
    y = fresh('y')
    s = st.copy()
    s.assume(Forall(dom, lambda i: Imp(inr(i, A.N), A.at(i) != y), widths=['int']))
    if B is not None:
        s.assume(Forall('ib', lambda i: Imp(inr(i, B.N), B.at(i) != y), widths=['int']))
    for x in extra:
        s.assume(y != x)
    for mp in (NX, PV):
        ex.prove(s, ex.getmap(s, mp).sel(y) == ex.init_maps[mp].sel(y), 'other nodes untouched')


def P(x):
    return Ptr(None, x)


def t_add(dbg, prev):
    def t(T):
        ex, st, A, _ = base(T, dbg)
        p = pos(ex, st, A, 'ia', 'p')
        x = new_node(ex, st, A)
        q = If(p == 0, A.N, p) if prev else p + 1
        R = ins(A, q, x)

        def done(s, r):
            prove_list(ex, s, R, 'inserted', lambda i: [('ia', A.N, t) for t in (i, i - 1)])
            frame(ex, s, A, [x])
        ex.run(st, 'v_add_prev' if prev else 'v_add', [P(A.at(p)), P(x)], done)
    return t


def t_insert(T):
    for dbg in (False, True):
        ex, st, A, _ = base(T, dbg)
        p = pos(ex, st, A, 'ia', 'p')
        x = new_node(ex, st, A)
        R = ins(A, p + 1, x)

        def done(s, r):
            prove_list(ex, s, R, 'inserted', lambda i: [('ia', A.N, t) for t in (i, i - 1)])
            frame(ex, s, A, [x])
        ex.run(st, 'v_insert', [P(A.at(p)), P(A.at(wrap(p, A.N))), P(x)], done)


def t_del(dbg, name):
    def t(T):
        ex, st, A, _ = base(T, dbg)
        p = pos(ex, st, A, 'ia', 'p', 1)
        R = rem(A, p)
        n = A.at(p)

        def done(s, r):
            prove_list(ex, s, R, 'removed', lambda i: [('ia', A.N, t) for t in (i, i + 1)])
            frame(ex, s, A, [n])
            nx, pv = ex.getmap(s, NX), ex.getmap(s, PV)
            if name == 'v_del_init':
                ex.prove(s, And(nx.sel(n) == n, pv.sel(n) == n), 'removed node is an empty list')
        ex.run(st, name, [P(n)], done)
    return t


def t_replace(init):
    def t(T):
        ex, st, A, _ = base(T, True)
        p = pos(ex, st, A, 'ia', 'p')
        # replacing the only element of a one-node ring is meaningless: the node is its own neighbour
        st.assume(A.N >= 2)
        x = new_node(ex, st, A)
        R = Seq(lambda i: If(i == p, x, A.at(i)), lambda y: If(y == x, p, A.idx(y)), None, A.N)
        n = A.at(p)

        def done(s, r):
            prove_list(ex, s, R, 'replaced', lambda i: [('ia', A.N, i)])
            frame(ex, s, A, [x])
            if init:
                nx, pv = ex.getmap(s, NX), ex.getmap(s, PV)
                ex.prove(s, And(nx.sel(n) == n, pv.sel(n) == n), 'replaced node is an empty list')
        ex.run(st, 'v_replace_init' if init else 'v_replace', [P(n), P(x)], done)
    return t


def t_move(dbg, prev):
    def t(T):
        ex, st, A, _ = base(T, dbg)
        p = pos(ex, st, A, 'ia', 'p', 1)
        h = pos(ex, st, A, 'ia', 'h')
        st.assume(p != h)
        A1 = rem(A, p)
        h1 = If(h < p, h, h - 1)
        q = If(h1 == 0, A1.N, h1) if prev else h1 + 1
        R = ins(A1, q, A.at(p))
        # idx of the moved node in A1 is irrelevant: ins tests for it first

        def done(s, r):
            prove_list(ex, s, R, 'moved', lambda i: [('ia', A.N, t) for t in (i, i + 1, i - 1)])
            frame(ex, s, A, [])
        ex.run(st, 'v_move_prev' if prev else 'v_move', [P(A.at(h)), P(A.at(p))], done)
    return t


def t_swap(dbg):
    def t(T):
        ex, st, A, _ = base(T, dbg)
        a = pos(ex, st, A, 'ia', 'a', 1)
        b = pos(ex, st, A, 'ia', 'b', 1)
        st.assume(a != b)
        R = Seq(lambda i: If(i == a, A.at(b), If(i == b, A.at(a), A.at(i))),
                lambda y: If(A.idx(y) == a, b, If(A.idx(y) == b, a, A.idx(y))), None, A.N)

        def done(s, r):
            prove_list(ex, s, R, 'swapped', lambda i: [('ia', A.N, i)])
            frame(ex, s, A, [])
        ex.run(st, 'v_swap', [P(A.at(a)), P(A.at(b))], done)
    return t


def t_splice(prev, init):
    def t(T):
        ex, st, A, B = base(T, True, True)
        h = pos(ex, st, A, 'ia', 'h')
        near(st, 'ib', B.N, I(0), S(B.N - 1))
        if prev:
            q = If(h == 0, A.N, h)
        else:
            q = h + 1
        M = B.N - 1
        R = Seq(lambda i: If(i < q, A.at(i), If(i < q + M, B.at(i - q + 1), A.at(i - M))),
                lambda y: If(A.own(y), If(A.idx(y) < q, A.idx(y), A.idx(y) + M), B.idx(y) + q - 1), None, A.N + M)
        # membership tests of the two lists exclude each other
        st.assume(Forall('ib', lambda j: Imp(inr(j, B.N), Not(A.own(B.at(j)))), widths=['int']))

        def done(s, r):
            prove_list(ex, s, R, 'spliced', lambda i: [('ia', A.N, t) for t in (i, i - M)] + [('ib', B.N, i - q + 1)])
            frame(ex, s, A, [], B=B)
            if init:
                nx, pv = ex.getmap(s, NX), ex.getmap(s, PV)
                b0 = B.at(I(0))
                ex.prove(s, And(nx.sel(b0) == b0, pv.sel(b0) == b0), 'source list is empty')
        nm = {(0, 0): 'v_splice', (1, 0): 'v_splice_prev', (0, 1): 'v_splice_init', (1, 1): 'v_splice_tail_init'}[(prev, init)]
        ex.run(st, nm, [P(A.at(h)), P(B.at(I(0)))], done)
    return t


def t_checks(T):
    def same(ex, s):
        y = fresh('y')
        for mp in (NX, PV):
            ex.prove(s, ex.getmap(s, mp).sel(y) == ex.init_maps[mp].sel(y), 'query changes nothing')
    for nm, f in (('check_head', lambda A, p: p == 0), ('check_first', lambda A, p: p == 1),
                  ('check_end', lambda A, p: p == A.N - 1), ('check_another', lambda A, p: And(A.N == 2, p == 1)), ('check_empty', lambda A, p: A.N == 1)):
        ex, st, A, _ = base(T, False)
        p = pos(ex, st, A, 'ia', 'p', 0 if nm == 'check_head' else 1 if nm != 'check_empty' else 0)

        def done(s, r):
            near(s, 'ia', A.N, I(1), I(2), I(0))
            ex.prove(s, (term(r) if not z3.is_bool(r) else r) == (f(A, p) if z3.is_bool(r) else If(f(A, p), bv(1, r.size()), bv(0, r.size()))), nm)
            same(ex, s)
        args = [P(A.at(I(0)))] + ([P(A.at(p))] if nm != 'check_empty' else [])
        ex.run(st, 'v_' + nm, args, done)
    ex = T.ex(TU)
    ex.raw_struct = 'bfdev_list_head'
    st = State()
    h = fresh('h')
    st.assume(h != 0)

    def done(s, r):
        ex.prove(s, And(ex.getmap(s, NX).sel(h) == h, ex.getmap(s, PV).sel(h) == h), 'initialised head is an empty list')
    ex.run(st, 'v_head_init', [P(h)], done)


TASKS = [('insert', t_insert), ('checks', t_checks)]
for dbg in (False, True):
    d = '/debug' if dbg else ''
    TASKS += [('add' + d, t_add(dbg, False)), ('add_prev' + d, t_add(dbg, True)),
              ('del' + d, t_del(dbg, 'v_del')), ('move' + d, t_move(dbg, False)), ('move_prev' + d, t_move(dbg, True)), ('swap' + d, t_swap(dbg))]
TASKS += [('deluf', t_del(False, 'v_deluf')), ('del_init', t_del(False, 'v_del_init')), ('replace', t_replace(False)), ('replace_init', t_replace(True))]
TASKS += [('splice%d%d' % (p, i), t_splice(p, i)) for p in (0, 1) for i in (0, 1)]
HARNESS = {'src': 'h_C04.c', 'what': 'random list operations against an array model; sort checked for order, stability, permutation and links', 'bound': '<= 40 nodes for operations, <= 700 for sort'}
BOUNDED = 'bfdev_list_sort; iteration macros'
