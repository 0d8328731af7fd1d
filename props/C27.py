"""Rate limiter and token bucket: one call from every state."""
from .lib import *
HARNESS = dict(src='h_C27.c', what='histories of 40 calls with tiny, huge, zero and backward time steps against 128-bit models', bound='40 calls per history')
BOUNDED = 'the whole-history bound (grants <= capacity + elapsed/interval) is summed over the proved single steps; the harness re-checks it on histories'
ASSUMPTIONS = ['times are positive (0 is the documented not-started state) and the interval is not negative']


def flds(ex, st, mod, name):
    R = ex.struct_region(st, mod, 'struct.' + name, name)
    return R, offs(mod, 'struct.' + name)


def pre(ex, st, interval, now, last):
    st.assume(interval >= 0, now > 0, last >= 0)
    ex.inputs.update(interval=interval, now=now, start=last)


def window(T):
    m = T.mod('src/ratelimit.c')
    ex = T.ex(m)
    st = State()
    R, o = flds(ex, st, m, 'bfdev_ratelimit')
    g = lambda s, i: term(ex.cells_get(s, R, o[i]))
    interval, burst, begin, passed, missed = (g(st, i) for i in range(5))
    now = fresh('now')
    pre(ex, st, interval, now, begin)
    ex.inputs.update(burst=burst, passed=passed)
    st.assume(ULE(passed, burst))
    x = lambda t: z3.SignExt(8, t)

    def done(s, r):
        t = r if z3.is_bool(r) else r != 0
        b0 = If(begin == 0, now, begin)
        new = x(now) > x(b0) + x(interval)
        off = interval == 0
        used = If(new, z3.BitVecVal(0, 32), passed)
        ex.prove(s, Imp(off, t), 'a zero interval limits nothing')
        ex.prove(s, Imp(Not(off), t == ULT(used, burst)), 'granted exactly when the window has room')
        ex.prove(s, Imp(Not(off), g(s, 3) == If(ULT(used, burst), used + 1, used)), 'the window counts every grant')
        ex.prove(s, ULE(g(s, 3), burst), 'never more than the burst in a window')
        ex.prove(s, Imp(Not(off), g(s, 2) == If(new, now, b0)), 'a window ends only after the interval')
        ex.prove(s, And(g(s, 0) == interval, g(s, 1) == burst), 'configuration kept')
        ex.prove(s, Imp(Not(off), g(s, 4) == If(t, missed, missed + 1)), 'refusals are counted')
    ex.run(st, 'bfdev_ratelimit', [Ptr(R), now], done)


def bucket(T):
    m = T.mod('src/tokenbucket.c')
    ex = T.ex(m)
    ex.ints = True
    st = State()
    R, o = flds(ex, st, m, 'bfdev_tokenbucket')
    g = lambda s, i: term(ex.cells_get(s, R, o[i]))
    interval, cap, last, cur, passed, missed = (g(st, i) for i in range(6))
    now = fresh('now')
    pre(ex, st, interval, now, last)
    ex.inputs.update(capacity=cap, current=cur)
    st.assume(ULE(cur, cap))
    x = lambda t: z3.ZeroExt(64, t)
    y = lambda t: z3.ZeroExt(32, t)

    def done(s, r):
        t = r if z3.is_bool(r) else r != 0
        on = interval != 0
        first = last == 0
        if not ex.feasible(s, first):
            c0, l0 = cur, last
        elif not ex.feasible(s, Not(first)):
            c0, l0 = cap, now
        else:
            c0, l0 = If(first, cap, cur), If(first, now, last)
        gen = If(now > l0, (now - l0) / interval, bv(0)) if ex.feasible(s, now > l0) else bv(0)
        total = If(UGE(gen, y(cap)), y(cap), umin(y(c0) + gen, y(cap)))
        ex.prove(s, Imp(interval == 0, t), 'a zero interval limits nothing')
        ex.prove(s, Imp(on, t == (total != 0)), 'granted exactly when a token is left')
        ex.prove(s, Imp(on, y(g(s, 3)) == If(t, total - 1, total)), 'one token per grant, refill capped at the capacity')
        ex.prove(s, ULE(g(s, 3), cap), 'never more tokens than the capacity')
        ex.prove(s, Imp(on, g(s, 2) == l0 + gen * interval), 'refill time advances by exactly the tokens refilled')
        ex.prove(s, Imp(on, And(g(s, 4) == If(t, passed + 1, passed), g(s, 5) == If(t, missed, missed + 1))), 'counters')
        ex.prove(s, And(g(s, 0) == interval, g(s, 1) == cap), 'configuration kept')
    ex.run(st, 'bfdev_tokenbucket', [Ptr(R), now], done)


def history(T):
    """the sum over a history: grants + tokens left <= capacity + refilled, refilled*interval <= elapsed"""
    ex = T.ex('src/tokenbucket.c')
    a, b, i, q, G, tok, cap, gen, l0, l1, t0, sumq = z3.Ints('now last interval q granted tokens cap gen l0 l1 t0 sumq')
    st = State()
    st.assume(i > 0, b >= 0, a > b, q * i <= a - b, a - b < (q + 1) * i)
    ex.prove(st, And(b + q * i <= a, q >= 0), 'refill time never passes the present')
    st = State()
    t2 = z3.Int('t2')
    st.assume(G + tok <= cap + sumq, q >= 0, t2 == z3.If(tok + q < cap, tok + q, cap), sumq * i == l0 - t0, l1 == l0 + q * i)
    ex.prove(st, And(G + 1 + (t2 - 1) <= cap + (sumq + q), (sumq + q) * i == l1 - t0), 'grants never exceed capacity plus refill')


TASKS = [('rate limiter', window), ('token bucket', bucket), ('history sum', history)]
