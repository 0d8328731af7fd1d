"""State machine."""
from .lib import *
SRC = 'src/fsm.c'
HARNESS = dict(src='h_C31.c', what='random machines of seven states with parents, entry states, guards, exceptions, stack and crossing transitions, failing callbacks and allocations', bound='12 events per machine, 20000 machines per job')
TASKS = []
BOUNDED = 'nothing beyond concrete re-checks'
ASSUMPTIONS = ['guards and exception handlers give one answer per event (they may be asked twice), callbacks do not feed the same machine again and do not change the declarations',
               'the entry and parent relations have no cycle', 'no transition pops 2^31 entries']
INT = z3.IntSort()
B64 = z3.BitVecSort(64)
ST, TR, FS, EV = 'bfdev_fsm_state', 'bfdev_fsm_transition', 'bfdev_fsm', 'bfdev_fsm_event'


def field(ex, st, tag, off, p, w=64):
    return ex.getmap(st, '%s.%d' % (tag, off), w).sel(p)


GUARD = z3.Function('guard', B64, B64, B64, B64)     # answer of a guard to this event and condition
EXC = z3.Function('exception', B64, B64, B64)


class D:
    """the declarations as functions of the initial heap"""
    def __init__(self, ex, st):
        g = lambda tag, off, w=64: (lambda m: (lambda p: m.sel(p)))(ex.getmap(st, '%s.%d' % (tag, off), w))
        self.enter, self.exit, self.exc, self.data, self.trans = (g(ST, o) for o in (0, 8, 16, 24, 32))
        self.tnum = g(ST, 40, 32)
        self.parent, self.entry = g(ST, 48), g(ST, 56)
        self.type, self.cond, self.next = g(TR, 0, 32), g(TR, 8), g(TR, 16)
        self.cross, self.stack = g(TR, 24, 8), g(TR, 28, 32)
        self.guard, self.action, self.tdata = g(TR, 32), g(TR, 40), g(TR, 48)
        self.etype = g(EV, 0, 32)


def T_(p, tag):
    q = Ptr(None, p)
    return q


def cbhook(ex):
    """calls through the user's function pointers"""
    def hook(st, fp):
        st.ghost['fp'] = term(fp)
        return Fn('usercall')
    ex.resolve_fn_hook = hook


def t_find(T):
    ex = T.ex(SRC)
    st = State()
    s, e = fresh('state'), fresh('event')
    st.assume(s != 0, e != 0)
    d = D(ex, st)
    cbhook(ex)
    n = d.tnum(s)
    at = lambda k: d.trans(s) + z3.ZeroExt(32, k) * 56
    match = lambda k: And(d.type(at(k)) == d.etype(e), Or(d.guard(at(k)) == 0, GUARD(d.guard(at(k)), e, d.cond(at(k))) == 0))

    def call(ex, st, a, inst):
        fp = st.ghost['fp']
        if st.ghost.get('over'):
            ex.prove(st, And(fp == d.exc(s), term(a[0]) == e, term(a[1]) == d.data(s)), 'the exception handler of the state')
            return Ptr(None, EXC(fp, d.data(s)))
        k = st.ghost['k']
        ex.prove(st, And(fp == d.guard(at(k)), term(a[0]) == e, term(a[1]) == d.cond(at(k)), d.type(at(k)) == d.etype(e)), 'the guard of a transition for this event')
        return GUARD(fp, e, term(a[1]))
    ex.contracts['usercall'] = call

    ex.valid = lambda st, p: And(p.base == at(st.ghost['k']), ULT(st.ghost['k'], n)) if p.tag[0] == TR else p.base != 0

    def inv(ex, st, L):
        k = L.t('count')
        st.ghost['k'] = k
        st.hint('k', k)
        return [ULE(k, n), Forall('k', lambda j: Imp(ULT(j, k), Not(match(j))), widths=[32])]
    ex.loops[('fsm_find_transition', 0)] = LoopSpec(inv=inv, decreases=lambda ex, st, L: n - L.t('count'))

    def hook2(st, fp):
        st.ghost['fp'] = term(fp)
        st.ghost['over'] = not ex.feasible(st, ULT(st.ghost['k'], n))
        return Fn('usercall')
    ex.resolve_fn_hook = hook2

    def done(s_, r):
        k, j = s_.ghost['k'], fresh('j', 32)
        s_.hint('k', j)
        r = term(r)
        ex.prove(s_, If(ULT(k, n), And(r == at(k), match(k), Imp(ULT(j, k), Not(match(j)))),
                        And(Imp(ULT(j, n), Not(match(j))), r == If(d.exc(s) == 0, bv(0), EXC(d.exc(s), d.data(s))))), 'the first matching transition, or what the exception handler says')
    ex.run(st, 'fsm_find_transition', [Ptr(None, s), Ptr(None, e)], done)


FT = z3.Function('transition', B64, B64)      # what fsm_find_transition answers for a state
OWN = z3.Function('owner', B64, B64)          # the nearest state, upwards from a state, that has a transition
LEAF = z3.Function('leaf', B64, B64)          # following entry states to the end


def cur_of(ex, st, f):
    c = ex.getmap(st, FS + '.24c', 32)
    return c


def machine(T):
    ex = T.ex(SRC)
    st = State()
    f, e = fresh('fsm'), fresh('event')
    st.assume(f != 0, e != 0)
    d = D(ex, st)
    return ex, st, f, e, d


def t_handle(T):
    ex, st, f, e, d = machine(T)

    def slot(st, p, size):
        ex.prove(st, Or(p.off == f, p.off == f + 8), 'a state slot')
        q = Ptr(None, p.off)
        q.tag, q.base, q.aidx = (FS, 0), f, S(z3.LShR(S(p.off - f), 3))
        return q
    ex.resolve_untagged = slot
    cbhook(ex)
    CNT = ex.tsize = None
    off_count = 0
    slots = lambda st: ex.getmap(st, FS + '.0', 64, 2)
    cmap = lambda st: ex.getmap(st, FS + '.%d' % COUNT, 32)
    ERR = ex.getmap(st, FS + '.16', 64).sel(f)
    idx = lambda c: z3.ZeroExt(32, c & 1)
    # definitions, unfolded where the code asks for them
    defs = Forall('s', lambda s: [OWN(s) == If(s == 0, bv(0), If(FT(s) != 0, s, OWN(d.parent(s)))), LEAF(s) == If(d.entry(s) == 0, s, LEAF(d.entry(s)))])
    st.assume(defs)
    st.hint('s', ERR, bv(0))

    def find(ex, st, a, inst):
        ex.prove(st, And(term(a[0]) != 0, term(a[1]) == e), 'looks the event up')
        st.hint('t', FT(term(a[0])))
        return Ptr(None, FT(term(a[0])))
    ex.contracts['fsm_find_transition'] = find

    def call(ex, st, a, inst):
        r = fresh('r', 32)
        st.ghost['trace'] = st.ghost['trace'] + ((st.ghost['fp'], tuple(term(x) for x in a), r),)
        return r
    ex.contracts['usercall'] = call

    # the stack of states: bfdev_array (proved under C01), seen as a depth and slots
    STK = z3.Function('slot', B64, B64)
    PS, QS = ex.region(st, 'cells', 'popped slot', 8), ex.region(st, 'cells', 'pushed slot', 8)

    def stackarg(ex, st, a):
        ex.prove(st, a == f + 24, 'the stack of the machine')

    def pop(ex, st, a, inst):
        stackarg(ex, st, term(a[0]))
        n = term(a[1])
        dep = st.ghost['depth']
        s2 = st.copy()
        s2.assume(UGT(n, dep))
        s2.ghost['underflow'] = True
        st.assume(ULE(n, dep))
        st.ghost['depth'] = dep - n
        st.ghost['popped'] = n
        st.mem[PS.id] = {0: (8, Ptr(None, STK(dep - n)))}
        return Forks([(s2, NULL), (st, Ptr(PS))])
    ex.contracts['bfdev_array_pop'] = pop

    def push(ex, st, a, inst):
        stackarg(ex, st, term(a[0]))
        ex.prove(st, term(a[1]) == 1, 'one entry')
        s2 = st.copy()
        s2.ghost['oom'] = True
        st.ghost['depth'] = st.ghost['depth'] + 1
        st.ghost['pushed'] = True
        return Forks([(s2, NULL), (st, Ptr(QS))])
    ex.contracts['bfdev_array_push'] = push
    c0 = fresh('c0', 32)

    def outer(ex, st, L):
        cur = L['curr']
        c = term(cur)
        if 'base' not in st.ghost or st.ghost['fresh']:
            pass
        cs = st.ghost['cs']
        st.hint('s', c, cs)
        cnt = cmap(st).sel(f)
        now = slots(st).sel(f, idx(cnt))
        # a new round of the loop: what this round does is checked against here
        st.ghost.update(trace=(), curr=c, cnt=cnt, slots=slots(st), depth0=st.ghost['depth'], popped=None, pushed=None)
        st.ghost.pop('n0', None)
        return [term(L['next']) == c, now == cs, OWN(c) == OWN(cs)]

    def round_(ex, st, changed, ret, how):
        """what happened since the loop head is what the transition of curr declares"""
        g = st.ghost
        c, cnt0 = g['curr'], g['cnt']
        t = FT(c)
        cnt, sl = cmap(st).sel(f), slots(st)
        x = fresh('x')
        st.hint('s', c, d.next(t), d.parent(c))
        stack = d.stack(t)
        n0 = If(d.next(t) != 0, d.next(t), If(stack < 0, STK(g['depth']) if g['popped'] is not None else bv(0), bv(0)))
        nx = LEAF(n0)
        st.hint('s', n0, nx)
        P = lambda gl, lab: ex.prove(st, gl, lab + how)
        same = And(cnt == cnt0, sl.sel(f, bv(0)) == g['slots'].sel(f, bv(0)), sl.sel(f, bv(1)) == g['slots'].sel(f, bv(1)))
        tr = list(g['trace'])

        def moved(to):
            return And(cnt == cnt0 + 1, sl.sel(f, idx(cnt)) == to, sl.sel(f, idx(cnt0)) == g['slots'].sel(f, idx(cnt0)))
        P(And(c != 0, t != 0, OWN(g['cs']) == c) if how != ' (up)' else And(c != 0, t == 0), 'the nearest transition upwards')
        if how == ' (up)':
            P(And(same, z3.BoolVal(not tr), g['depth'] == g['depth0']), 'nothing happens on the way up')
            return
        if g.get('underflow'):
            P(And(d.next(t) == 0, stack < 0, same, z3.BoolVal(not tr), ret == bv(-75 & 0xffffffff, 32)), 'popping more than was pushed')
            return
        if g['popped'] is not None:
            P(And(d.next(t) == 0, stack < 0, g['popped'] == z3.SignExt(32, -stack)), 'pops what is declared')
        else:
            P(Not(And(d.next(t) == 0, stack < 0)), 'pops when declared')
        if ex.feasible(st, n0 == 0) and not ex.feasible(st, n0 != 0):
            calls = [(ERR != 0, d.enter(ERR), (e, d.data(ERR)))]
            st.ghost['cs'] = ERR
            P(moved(ERR), 'the error state is entered')
            has = And(ERR != 0, d.enter(ERR) != 0)
            P(has if tr else Not(has), 'error entry callback')
            if tr:
                P(And(z3.BoolVal(len(tr) == 1), tr[0][0] == d.enter(ERR), tr[0][1][0] == e, tr[0][1][1] == d.data(ERR)), 'error entry callback')
                P(ret == If(tr[0][2] != 0, tr[0][2], bv(-2 & 0xffffffff, 32)), 'no next state')
            else:
                P(ret == bv(-2 & 0xffffffff, 32), 'no next state')
            return
        P(n0 != 0, 'a next state')
        P(And(g['nx'] == nx, g['n0'] == n0), 'down the entry states')
        nx = g['nx']
        want = [(And(c != nx, stack <= 0, d.exit(c) != 0), d.exit(c), (e, d.data(c)), 'exit callback'),
                (d.action(t) != 0, d.action(t), (e, d.tdata(t), d.data(c), d.data(nx)), 'action'),
                (And(c != nx, stack >= 0, d.enter(nx) != 0), d.enter(nx), (e, d.data(nx)), 'entry callback')]
        for cond, fn, args, lab in want:
            got = None
            if tr:
                k = z3.And(cond, tr[0][0] == fn, *[a == b for a, b in zip(tr[0][1], args)]) if len(tr[0][1]) == len(args) else z3.BoolVal(False)
                if ex.feasible(st, cond):
                    got = tr.pop(0)
                    P(k, lab)
            if got is None:
                P(Not(cond), 'no ' + lab)
            elif tr == [] and not ex.feasible(st, got[2] == 0):
                P(And(same, ret == got[2]), 'a failing callback stops the change')
                return
            else:
                P(got[2] == 0, 'callback succeeded')
        P(z3.BoolVal(not tr), 'no other callback')
        P(moved(nx), 'the declared next state is entered and the old one remembered')
        fin = And(d.tnum(nx) == 0, d.exc(nx) == 0)
        pushes = And(nx != ERR, nx != c, Not(fin), stack > 0)
        if g['pushed'] is not None:
            P(And(pushes, term(ex.cells_get(st, QS, 0)) == c), 'the state is pushed')
        else:
            P(pushes if g.get('oom') else Not(pushes), 'pushed only when declared')
        rets = If(nx == ERR, bv(-14 & 0xffffffff, 32), If(nx == c, bv(2, 32), If(fin, bv(3, 32), bv(0, 32))))
        st.ghost['cs'] = nx
        if how == ' (crossing)':
            P(And(rets == 0, d.cross(t) & 1 != 0), 'crosses on when declared')
        elif g.get('oom'):
            P(ret == bv(-12 & 0xffffffff, 32), 'no memory')
        else:
            P(ret == rets, 'result')
            P(Imp(rets == 0, d.cross(t) & 1 == 0), 'stays unless crossing')

    def back(ex, st, L):
        up = not ex.feasible(st, FT(st.ghost['curr']) != 0)
        round_(ex, st, None, None, ' (up)' if up else ' (crossing)')
    ex.loops[('bfdev_fsm_handle', 0)] = LoopSpec(inv=outer, ghosts=['cs', 'depth'], on_back=back)

    def inner(ex, st, L):
        n = term(L['next'])
        if 'n0' not in st.ghost:
            st.ghost['n0'] = n
        st.ghost['nx'] = n
        st.hint('s', n, st.ghost['n0'])
        return [n != 0, LEAF(n) == LEAF(st.ghost['n0'])]
    ex.loops[('bfdev_fsm_handle', 1)] = LoopSpec(inv=inner)
    cs0 = slots(st).sel(f, idx(cmap(st).sel(f)))
    st.ghost.update(cs=cs0, depth=fresh('depth'), fresh=True)
    st.assume(Forall('t', lambda t: d.stack(t) != bv(1 << 31, 32), widths=[64]))

    def done(s, r):
        r = term(r)
        if 'curr' not in s.ghost:
            ex.prove(s, And(cs0 == 0, r == bv(-22 & 0xffffffff, 32)), 'a machine without a state is refused')
            return
        if s.ghost['curr_done'] if 'curr_done' in s.ghost else False:
            return
        c = s.ghost['curr']
        if not ex.feasible(s, r != 1):
            ex.prove(s, And(OWN(s.ghost['cs']) == 0, z3.BoolVal(not s.ghost['trace'])), 'nothing declared, nothing done')
            return
        round_(ex, s, None, r, '')
    ex.run(st, 'bfdev_fsm_handle', [Ptr(None, f), Ptr(None, e)], done)


ERRNO = dict(EOVERFLOW=75)
COUNT = 64
TASKS = [('find', t_find), ('handle', t_handle)]
